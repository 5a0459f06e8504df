------------------------------ MODULE HttpTexts ------------------------------
(* Generated by tools/gen_texts.py: texts as byte sequences. *)
EXTENDS Sequences
N_Null == <<78,117,108,108>>
N_Bool == <<66,111,111,108>>
N_String == <<83,116,114,105,110,103>>
N_Int == <<73,110,116>>
N_Float == <<70,108,111,97,116>>
N_Vector == <<86,101,99,116,111,114>>
N_Map == <<77,97,112>>
N_Value == <<86,97,108,117,101>>
N_Message == <<77,101,115,115,97,103,101>>
N_Size == <<83,105,122,101>>
N_Expiration == <<69,120,112,105,114,97,116,105,111,110>>
N_Key == <<75,101,121>>
N_ValueType == <<86,97,108,117,101,84,121,112,101>>
N_ShuttingDown == <<83,104,117,116,116,105,110,103,68,111,119,110>>
N_vector == <<118,101,99,116,111,114>>
N_map == <<109,97,112>>
N_collection_type == <<99,111,108,108,101,99,116,105,111,110,95,116,121,112,101>>
N_key_type == <<107,101,121,95,116,121,112,101>>
N_Ok == <<79,107>>
N_true == <<116,114,117,101>>
N_false == <<102,97,108,115,101>>
N_KeyError == <<75,101,121,69,114,114,111,114>>
N_NetworkError == <<78,101,116,119,111,114,107,69,114,114,111,114>>
N_WriteError == <<87,114,105,116,101,69,114,114,111,114>>
N_TokenizationError == <<84,111,107,101,110,105,122,97,116,105,111,110,69,114,114,111,114>>
N_ParseError == <<80,97,114,115,101,69,114,114,111,114>>
N_IndexError == <<73,110,100,101,120,69,114,114,111,114>>
N_TypeError == <<84,121,112,101,69,114,114,111,114>>
N_InternalError == <<73,110,116,101,114,110,97,108,69,114,114,111,114>>
N_AuthorizationError == <<65,117,116,104,111,114,105,122,97,116,105,111,110,69,114,114,111,114>>
N_AuthenticationError == <<65,117,116,104,101,110,116,105,99,97,116,105,111,110,69,114,114,111,114>>
N_RequestError == <<82,101,113,117,101,115,116,69,114,114,111,114>>
N_admin == <<97,100,109,105,110>>
N_write == <<119,114,105,116,101>>
N_read == <<114,101,97,100>>
N_unauthenticated == <<117,110,97,117,116,104,101,110,116,105,99,97,116,101,100>>
ErrorNames == {[n |-> "KeyError", c |-> N_KeyError], [n |-> "NetworkError", c |-> N_NetworkError], [n |-> "WriteError", c |-> N_WriteError], [n |-> "TokenizationError", c |-> N_TokenizationError], [n |-> "ParseError", c |-> N_ParseError], [n |-> "IndexError", c |-> N_IndexError], [n |-> "TypeError", c |-> N_TypeError], [n |-> "InternalError", c |-> N_InternalError], [n |-> "AuthorizationError", c |-> N_AuthorizationError], [n |-> "AuthenticationError", c |-> N_AuthenticationError], [n |-> "RequestError", c |-> N_RequestError]}
Lines == <<
  <<80,79,83,84,32,47,32,72,84,84,80,47,49,46,49>>,
  <<80,79,83,84,32,47,97,63,98,61,99,38,100,61,37,50,48,32,72,84,84,80,47,49,46,48>>,
  <<71,69,84,32,47,32,72,84,84,80,47,49,46,49>>,
  <<80,85,84,32,47,32,72,84,84,80,47,49,46,49>>,
  <<112,111,115,116,32,47,32,72,84,84,80,47,49,46,49>>,
  <<80,79,83,84,69,68,32,47,32,72,84,84,80,47,49,46,49>>,
  <<80,79,83,84,32,47,32,72,84,84,80,47,50,46,48>>,
  <<80,79,83,84,32,47>>,
  <<68,69,76,69,84,69,32,42,32,72,84,84,80,47,49,46,49>> >>
Lengths == <<
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>>, <<>>>>,
  <<<<99,111,110,116,101,110,116,45,108,101,110,103,116,104,58>>, <<>>>>,
  <<<<67,79,78,84,69,78,84,45,76,69,78,71,84,72,58,32,32,32>>, <<32,32>>>>,
  <<<<99,79,110,84,101,78,116,45,76,101,78,103,84,104,58,32,48,48>>, <<9>>>>,
  <<<<67,111,110,116,101,110,116,45,108,101,110,103,116,104,58,32>>, <<>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,97,98,99>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,45,49>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,49,32,50>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>>, <<46,48>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,48,120,49>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57,57>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>>, <<44,32>>, <<>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,255>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,52,50,57,52,57,54,55,50,57,54>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,115,58,32>>, <<>>>>,
  <<<<88,45,67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32>>, <<>>>>,
  <<<<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,43>>, <<>>>>,
  <<>> >>
Others == <<
  <<>>,
  <<<<85,115,101,114,110,97,109,101,58,32,97,100,109,105,110>>>>,
  <<<<117,115,101,114,110,97,109,101,58,32,97,100,109,105,110>>, <<88,58,32,121>>>>,
  <<<<65,58,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118,118>>, <<66,58>>>>,
  <<<<72,48,58,32,48>>, <<72,49,58,32,49>>, <<72,50,58,32,50>>, <<72,51,58,32,51>>, <<72,52,58,32,52>>, <<72,53,58,32,53>>, <<72,54,58,32,54>>, <<72,55,58,32,55>>, <<72,56,58,32,56>>, <<72,57,58,32,57>>, <<72,49,48,58,32,49,48>>, <<72,49,49,58,32,49,49>>, <<72,49,50,58,32,49,50>>, <<72,49,51,58,32,49,51>>, <<72,49,52,58,32,49,52>>, <<72,49,53,58,32,49,53>>, <<72,49,54,58,32,49,54>>, <<72,49,55,58,32,49,55>>, <<72,49,56,58,32,49,56>>, <<72,49,57,58,32,49,57>>, <<72,50,48,58,32,50,48>>, <<72,50,49,58,32,50,49>>, <<72,50,50,58,32,50,50>>, <<72,50,51,58,32,50,51>>, <<72,50,52,58,32,50,52>>, <<72,50,53,58,32,50,53>>, <<72,50,54,58,32,50,54>>, <<72,50,55,58,32,50,55>>, <<72,50,56,58,32,50,56>>, <<72,50,57,58,32,50,57>>, <<72,51,48,58,32,51,48>>>>,
  <<<<72,48,58,32,48>>, <<72,49,58,32,49>>, <<72,50,58,32,50>>, <<72,51,58,32,51>>, <<72,52,58,32,52>>, <<72,53,58,32,53>>, <<72,54,58,32,54>>, <<72,55,58,32,55>>, <<72,56,58,32,56>>, <<72,57,58,32,57>>, <<72,49,48,58,32,49,48>>, <<72,49,49,58,32,49,49>>, <<72,49,50,58,32,49,50>>, <<72,49,51,58,32,49,51>>, <<72,49,52,58,32,49,52>>, <<72,49,53,58,32,49,53>>, <<72,49,54,58,32,49,54>>, <<72,49,55,58,32,49,55>>, <<72,49,56,58,32,49,56>>, <<72,49,57,58,32,49,57>>, <<72,50,48,58,32,50,48>>, <<72,50,49,58,32,50,49>>, <<72,50,50,58,32,50,50>>, <<72,50,51,58,32,50,51>>, <<72,50,52,58,32,50,52>>, <<72,50,53,58,32,50,53>>, <<72,50,54,58,32,50,54>>, <<72,50,55,58,32,50,55>>, <<72,50,56,58,32,50,56>>, <<72,50,57,58,32,50,57>>, <<72,51,48,58,32,51,48>>, <<72,51,49,58,32,51,49>>>>,
  <<<<72,48,58,32,48>>, <<72,49,58,32,49>>, <<72,50,58,32,50>>, <<72,51,58,32,51>>, <<72,52,58,32,52>>, <<72,53,58,32,53>>, <<72,54,58,32,54>>, <<72,55,58,32,55>>, <<72,56,58,32,56>>, <<72,57,58,32,57>>, <<72,49,48,58,32,49,48>>, <<72,49,49,58,32,49,49>>, <<72,49,50,58,32,49,50>>, <<72,49,51,58,32,49,51>>, <<72,49,52,58,32,49,52>>, <<72,49,53,58,32,49,53>>, <<72,49,54,58,32,49,54>>, <<72,49,55,58,32,49,55>>, <<72,49,56,58,32,49,56>>, <<72,49,57,58,32,49,57>>, <<72,50,48,58,32,50,48>>, <<72,50,49,58,32,50,49>>, <<72,50,50,58,32,50,50>>, <<72,50,51,58,32,50,51>>, <<72,50,52,58,32,50,52>>, <<72,50,53,58,32,50,53>>, <<72,50,54,58,32,50,54>>, <<72,50,55,58,32,50,55>>, <<72,50,56,58,32,50,56>>, <<72,50,57,58,32,50,57>>, <<72,51,48,58,32,51,48>>, <<72,51,49,58,32,51,49>>, <<72,51,50,58,32,51,50>>, <<72,51,51,58,32,51,51>>, <<72,51,52,58,32,51,52>>, <<72,51,53,58,32,51,53>>, <<72,51,54,58,32,51,54>>, <<72,51,55,58,32,51,55>>, <<72,51,56,58,32,51,56>>, <<72,51,57,58,32,51,57>>>>,
  <<<<84,114,97,110,115,102,101,114,45,69,110,99,111,100,105,110,103,58,32,99,104,117,110,107,101,100>>>>,
  <<<<66,97,100,32,78,97,109,101,58,32,120>>>>,
  <<<<110,111,99,111,108,111,110>>>>,
  <<<<88,58,9,121,32,122,9>>>> >>
Bodies == <<
  <<123,34,113,117,101,114,121,34,58,34,103,101,116,32,120,34,125>>,
  <<123,34,113,117,101,114,121,34,58,32,34,115,101,116,32,120,32,92,34,97,92,117,48,48,101,57,92,110,92,117,100,56,51,100,92,117,100,101,48,48,92,34,34,44,32,34,111,116,104,101,114,34,58,32,91,49,44,32,123,34,97,34,58,32,110,117,108,108,125,93,125>>,
  <<32,123,10,34,97,34,58,49,44,34,113,117,101,114,121,34,58,34,195,169,230,188,162,240,159,152,128,34,9,125,10>>,
  <<123,34,113,117,101,114,121,34,58,34,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,97,34,44,34,113,117,101,114,121,34,58,34,98,34,125>>,
  <<123,34,113,117,101,114,121,34,58,49,125>>,
  <<123,34,113,117,101,114,121,34,58,110,117,108,108,125>>,
  <<123,34,113,117,101,114,121,34,58,91,34,103,101,116,32,120,34,93,125>>,
  <<123,34,81,117,101,114,121,34,58,34,103,101,116,32,120,34,125>>,
  <<123,125>>,
  <<91,93>>,
  <<91,34,113,117,101,114,121,34,44,34,103,101,116,32,120,34,93>>,
  <<34,113,117,101,114,121,34>>,
  <<49>>,
  <<>>,
  <<32>>,
  <<103,101,116,32,120>>,
  <<123,34,113,117,101,114,121,34,58,34,103,101,116,32,120,34>>,
  <<123,34,113,117,101,114,121,34,58,34,103,101,116,32,120,34,125,125>>,
  <<123,34,113,117,101,114,121,34,58,34,103,101,116,32,120,34,44,125>>,
  <<123,39,113,117,101,114,121,39,58,39,103,101,116,32,120,39,125>>,
  <<123,34,113,117,101,114,121,34,58,34,92,120,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,92,117,100,56,48,48,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,97,10,98,34,125>>,
  <<123,113,117,101,114,121,58,34,103,101,116,32,120,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,103,101,116,32,120,34,125,32,120>>,
  <<123,34,97,34,58,48,49,44,34,113,117,101,114,121,34,58,34,120,34,125>>,
  <<123,34,97,34,58,91,49,44,50,44,93,44,34,113,117,101,114,121,34,58,34,120,34,125>>,
  <<123,34,97,34,58,116,114,117,44,34,113,117,101,114,121,34,58,34,120,34,125>>,
  <<123,34,97,34,58,45,48,46,53,101,43,51,44,34,113,117,101,114,121,34,58,34,120,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,255,34,125>>,
  <<123,34,113,117,101,114,121,34,58,34,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,122,34,125>> >>
Excess == <<
  <<>>,
  <<10>>,
  <<120,121,122>>,
  <<80,79,83,84,32,47,32,72,84,84,80,47,49,46,49,13,10,67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,49,55,13,10,13,10,123,34,113,117,101,114,121,34,58,34,103,101,116,32,121,34,125>> >>
=============================================================================
