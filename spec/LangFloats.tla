---- MODULE LangFloats ----
EXTENDS Integers
(* generated by tools/gen_langfloats.py; every entry is confirmed by Float32 before use *)
ShortFloats == <<
 [lit |-> <<48,46>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<55,46>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,48,46>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,55,46>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,46,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,55>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<55,48,46>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,46,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,48,46>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,55,46>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,46,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,46,55>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,48,48,46>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,55,46>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,48,46,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,46,55>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,55,48,46>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,55,46>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,46,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,55>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,46,48,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,48,55>>, neg |-> 0, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<48,46,55,48>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,55>>, neg |-> 0, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,69,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<55,48,48,46>>, neg |-> 0, m |-> 11468800, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,55,46>>, neg |-> 0, m |-> 11583488, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,46,48>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,55>>, neg |-> 0, m |-> 9266790, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,48,46>>, neg |-> 0, m |-> 12615680, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,55,46>>, neg |-> 0, m |-> 12730368, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,46,48>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,55>>, neg |-> 0, m |-> 10184294, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,46,48,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,55>>, neg |-> 0, m |-> 14826865, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,48>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,55>>, neg |-> 0, m |-> 16294871, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,69,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,69,55>>, neg |-> 0, m |-> 8750000, e |-> 3, inf |-> FALSE],
 [lit |-> <<45,48,48,46>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,55,46>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,48,46,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,46,55>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,55,48,46>>, neg |-> 1, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,55,46>>, neg |-> 1, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,46,48>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,55>>, neg |-> 1, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,46,48,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,46,48,55>>, neg |-> 1, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<45,46,55,48>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,55>>, neg |-> 1, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,48,48,48,46>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,48,55,46>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,48,48,46,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,48,46,55>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,48,55,48,46>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,48,55,55,46>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,48,55,46,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,48,55,46,55>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,48,46,48,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,46,48,55>>, neg |-> 0, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<48,48,46,55,48>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,48,46,55,55>>, neg |-> 0, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,48,46,69,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,48,46,69,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,55,48,48,46>>, neg |-> 0, m |-> 11468800, e |-> -14, inf |-> FALSE],
 [lit |-> <<48,55,48,55,46>>, neg |-> 0, m |-> 11583488, e |-> -14, inf |-> FALSE],
 [lit |-> <<48,55,48,46,48>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,48,46,55>>, neg |-> 0, m |-> 9266790, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,55,48,46>>, neg |-> 0, m |-> 12615680, e |-> -14, inf |-> FALSE],
 [lit |-> <<48,55,55,55,46>>, neg |-> 0, m |-> 12730368, e |-> -14, inf |-> FALSE],
 [lit |-> <<48,55,55,46,48>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,55,46,55>>, neg |-> 0, m |-> 10184294, e |-> -17, inf |-> FALSE],
 [lit |-> <<48,55,46,48,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,48,55>>, neg |-> 0, m |-> 14826865, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,55,48>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,55,55>>, neg |-> 0, m |-> 16294871, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,69,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<48,55,46,69,55>>, neg |-> 0, m |-> 8750000, e |-> 3, inf |-> FALSE],
 [lit |-> <<48,46,48,48,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,48,48,55>>, neg |-> 0, m |-> 15032386, e |-> -31, inf |-> FALSE],
 [lit |-> <<48,46,48,55,48>>, neg |-> 0, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<48,46,48,55,55>>, neg |-> 0, m |-> 10334765, e |-> -27, inf |-> FALSE],
 [lit |-> <<48,46,48,69,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,48,69,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,55,48,48>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,48,55>>, neg |-> 0, m |-> 11861492, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,55,48>>, neg |-> 0, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,55,55>>, neg |-> 0, m |-> 13035897, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,69,48>>, neg |-> 0, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<48,46,55,69,55>>, neg |-> 0, m |-> 14000000, e |-> -1, inf |-> FALSE],
 [lit |-> <<48,46,69,48,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,48,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,55,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,55,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,45,48>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<48,46,69,45,55>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<55,48,48,48,46>>, neg |-> 0, m |-> 14336000, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,48,48,55,46>>, neg |-> 0, m |-> 14350336, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,48,48,46,48>>, neg |-> 0, m |-> 11468800, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,48,46,55>>, neg |-> 0, m |-> 11480269, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,55,48,46>>, neg |-> 0, m |-> 14479360, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,48,55,55,46>>, neg |-> 0, m |-> 14493696, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,48,55,46,48>>, neg |-> 0, m |-> 11583488, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,55,46,55>>, neg |-> 0, m |-> 11594957, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,48,46,48,48>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,48,55>>, neg |-> 0, m |-> 9184215, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,55,48>>, neg |-> 0, m |-> 9266790, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,55,55>>, neg |-> 0, m |-> 9275965, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,69,48>>, neg |-> 0, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,48,46,69,55>>, neg |-> 0, m |-> 10937500, e |-> 6, inf |-> FALSE],
 [lit |-> <<55,55,48,48,46>>, neg |-> 0, m |-> 15769600, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,55,48,55,46>>, neg |-> 0, m |-> 15783936, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,55,48,46,48>>, neg |-> 0, m |-> 12615680, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,48,46,55>>, neg |-> 0, m |-> 12627149, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,55,48,46>>, neg |-> 0, m |-> 15912960, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,55,55,55,46>>, neg |-> 0, m |-> 15927296, e |-> -11, inf |-> FALSE],
 [lit |-> <<55,55,55,46,48>>, neg |-> 0, m |-> 12730368, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,55,46,55>>, neg |-> 0, m |-> 12741837, e |-> -14, inf |-> FALSE],
 [lit |-> <<55,55,46,48,48>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,48,55>>, neg |-> 0, m |-> 10101719, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,55,48>>, neg |-> 0, m |-> 10184294, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,55,55>>, neg |-> 0, m |-> 10193469, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,69,48>>, neg |-> 0, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<55,55,46,69,55>>, neg |-> 0, m |-> 12031250, e |-> 6, inf |-> FALSE],
 [lit |-> <<55,46,48,48,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,48,55>>, neg |-> 0, m |-> 14694744, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,55,48>>, neg |-> 0, m |-> 14826865, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,55,55>>, neg |-> 0, m |-> 14841545, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,69,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,48,69,55>>, neg |-> 0, m |-> 8750000, e |-> 3, inf |-> FALSE],
 [lit |-> <<55,46,55,48,48>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,48,55>>, neg |-> 0, m |-> 16162750, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,55,48>>, neg |-> 0, m |-> 16294871, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,55,55>>, neg |-> 0, m |-> 16309551, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,69,48>>, neg |-> 0, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,55,69,55>>, neg |-> 0, m |-> 9625000, e |-> 3, inf |-> FALSE],
 [lit |-> <<55,46,69,48,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,69,48,55>>, neg |-> 0, m |-> 8750000, e |-> 3, inf |-> FALSE],
 [lit |-> <<55,46,69,55,48>>, neg |-> 0, m |-> 0, e |-> 0, inf |-> TRUE],
 [lit |-> <<55,46,69,55,55>>, neg |-> 0, m |-> 0, e |-> 0, inf |-> TRUE],
 [lit |-> <<55,46,69,45,48>>, neg |-> 0, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<55,46,69,45,55>>, neg |-> 0, m |-> 12314530, e |-> -44, inf |-> FALSE],
 [lit |-> <<45,48,48,48,46>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,48,55,46>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,48,48,46,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,48,46,55>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,48,55,48,46>>, neg |-> 1, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,48,55,55,46>>, neg |-> 1, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,48,55,46,48>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,48,55,46,55>>, neg |-> 1, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,48,46,48,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,46,48,55>>, neg |-> 1, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<45,48,46,55,48>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,48,46,55,55>>, neg |-> 1, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,48,46,69,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,48,46,69,55>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,55,48,48,46>>, neg |-> 1, m |-> 11468800, e |-> -14, inf |-> FALSE],
 [lit |-> <<45,55,48,55,46>>, neg |-> 1, m |-> 11583488, e |-> -14, inf |-> FALSE],
 [lit |-> <<45,55,48,46,48>>, neg |-> 1, m |-> 9175040, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,48,46,55>>, neg |-> 1, m |-> 9266790, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,55,48,46>>, neg |-> 1, m |-> 12615680, e |-> -14, inf |-> FALSE],
 [lit |-> <<45,55,55,55,46>>, neg |-> 1, m |-> 12730368, e |-> -14, inf |-> FALSE],
 [lit |-> <<45,55,55,46,48>>, neg |-> 1, m |-> 10092544, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,55,46,55>>, neg |-> 1, m |-> 10184294, e |-> -17, inf |-> FALSE],
 [lit |-> <<45,55,46,48,48>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,48,55>>, neg |-> 1, m |-> 14826865, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,55,48>>, neg |-> 1, m |-> 16148070, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,55,55>>, neg |-> 1, m |-> 16294871, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,69,48>>, neg |-> 1, m |-> 14680064, e |-> -21, inf |-> FALSE],
 [lit |-> <<45,55,46,69,55>>, neg |-> 1, m |-> 8750000, e |-> 3, inf |-> FALSE],
 [lit |-> <<45,46,48,48,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,46,48,48,55>>, neg |-> 1, m |-> 15032386, e |-> -31, inf |-> FALSE],
 [lit |-> <<45,46,48,55,48>>, neg |-> 1, m |-> 9395241, e |-> -27, inf |-> FALSE],
 [lit |-> <<45,46,48,55,55>>, neg |-> 1, m |-> 10334765, e |-> -27, inf |-> FALSE],
 [lit |-> <<45,46,48,69,48>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,46,48,69,55>>, neg |-> 1, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<45,46,55,48,48>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,48,55>>, neg |-> 1, m |-> 11861492, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,55,48>>, neg |-> 1, m |-> 12918456, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,55,55>>, neg |-> 1, m |-> 13035897, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,69,48>>, neg |-> 1, m |-> 11744051, e |-> -24, inf |-> FALSE],
 [lit |-> <<45,46,55,69,55>>, neg |-> 1, m |-> 14000000, e |-> -1, inf |-> FALSE],
 [lit |-> <<49,46,53>>, neg |-> 0, m |-> 12582912, e |-> -23, inf |-> FALSE],
 [lit |-> <<45,48,46,49>>, neg |-> 1, m |-> 13421773, e |-> -27, inf |-> FALSE],
 [lit |-> <<48,46,49>>, neg |-> 0, m |-> 13421773, e |-> -27, inf |-> FALSE],
 [lit |-> <<51,46,52,48,50,56,50,51,53,101,51,56>>, neg |-> 0, m |-> 16777215, e |-> 104, inf |-> FALSE],
 [lit |-> <<51,46,52,48,50,56,50,51,54,101,51,56>>, neg |-> 0, m |-> 0, e |-> 0, inf |-> TRUE],
 [lit |-> <<49,46,48,101,45,52,54>>, neg |-> 0, m |-> 0, e |-> -149, inf |-> FALSE],
 [lit |-> <<49,54,55,55,55,50,49,55,46,48>>, neg |-> 0, m |-> 8388608, e |-> 1, inf |-> FALSE] >>
====
