#!/usr/bin/env python3
"""Writes spec/HttpTexts.tla: the texts the HTTP models are built from, as byte sequences."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def b(s):
    s = s if isinstance(s, bytes) else s.encode("utf8")
    return "<<" + ",".join(str(c) for c in s) + ">>"

def show(s):
    s = s if isinstance(s, bytes) else s.encode("utf8")
    t = s.decode("latin1").encode("unicode_escape").decode()
    return t[:60].replace("*)", "* )").replace("(*", "( *")

NAMES = {n: n for n in ["Null", "Bool", "String", "Int", "Float", "Vector", "Map", "Value", "Message", "Size", "Expiration", "Key",
         "ValueType", "ShuttingDown", "vector", "map", "collection_type", "key_type", "Ok", "true", "false",
         "KeyError", "NetworkError", "WriteError", "TokenizationError", "ParseError", "IndexError", "TypeError",
         "InternalError", "AuthorizationError", "AuthenticationError", "RequestError",
         "admin", "write", "read", "unauthenticated"]}

Lines = ["POST / HTTP/1.1", "POST /a?b=c&d=%20 HTTP/1.0", "GET / HTTP/1.1", "PUT / HTTP/1.1", "post / HTTP/1.1", "POSTED / HTTP/1.1", "POST / HTTP/2.0", "POST /", "DELETE * HTTP/1.1"]
# {} is the declared length
Lengths = ["Content-Length: {}", "content-length:{}", "CONTENT-LENGTH:   {}  ", "cOnTeNt-LeNgTh: 00{}\t", "Content-length: {}",
           "Content-Length: abc", "Content-Length: -1", "Content-Length:", "Content-Length: 1 2", "Content-Length: {}.0", "Content-Length: 0x1", "Content-Length: 18446744073709551616",
           "Content-Length: 99999999999999999999999999", "Content-Length: {}, {}", b"Content-Length: \xff", "Content-Length: 4294967296", "Content-Length: 18446744073709551615", "Content-Length: 9223372036854775808", "Content-Lengths: {}", "X-Content-Length: {}", "Content-Length: +{}", None]
Others = [[], ["Username: admin"], ["username: admin", "X: y"], ["A:" + "v" * 40, "B:"], ["H%d: %d" % (i, i) for i in range(31)], ["H%d: %d" % (i, i) for i in range(32)], ["H%d: %d" % (i, i) for i in range(40)], ["Transfer-Encoding: chunked"], ["Bad Name: x"], ["nocolon"], ["X:\ty z\t"]]
Bodies = ['{"query":"get x"}', '{"query": "set x \\"a\\u00e9\\n\\ud83d\\ude00\\"", "other": [1, {"a": null}]}', ' {\n"a":1,"query":"\u00e9\u6f22\U0001f600"\t}\n', '{"query":""}', '{"query":"a","query":"b"}',
          '{"query":1}', '{"query":null}', '{"query":["get x"]}', '{"Query":"get x"}', '{}', '[]', '["query","get x"]', '"query"', '1', '', ' ', 'get x', '{"query":"get x"', '{"query":"get x"}}', '{"query":"get x",}', "{'query':'get x'}", '{"query":"\\x"}', '{"query":"\\ud800"}', '{"query":"a\nb"}', '{query:"get x"}', '{"query":"get x"} x', '{"a":01,"query":"x"}', '{"a":[1,2,],"query":"x"}', '{"a":tru,"query":"x"}', '{"a":-0.5e+3,"query":"x"}', b'{"query":"\xff"}', '{"query":"' + "z" * 90 + '"}']
Excess = ["", "\n", "xyz", "POST / HTTP/1.1\r\nContent-Length: 17\r\n\r\n" + '{"query":"get y"}']

def nline(l):
    return b(l)

with open(os.path.join(ROOT, "spec/HttpTexts.tla"), "w") as f:
    f.write("------------------------------ MODULE HttpTexts ------------------------------\n(* Generated by tools/gen_texts.py: texts as byte sequences. *)\nEXTENDS Sequences\n")
    for n, v in NAMES.items():
        f.write("N_%s == %s\n" % (n, b(v)))
    f.write('ErrorNames == {%s}\n' % ", ".join('[n |-> "%s", c |-> N_%s]' % (n, n) for n in NAMES if n.endswith("Error")))

    def seq(name, items, enc=b):
        f.write("%s == <<\n%s >>\n" % (name, ",\n".join("  %s  \\* %s" % (enc(x), show(x) if isinstance(x, (str, bytes)) else "") if False else "  " + enc(x) for x in items)))
    seq("Lines", Lines)

    def enc_len(x):
        if x is None:
            return "<<>>"
        parts = x.split(b"{}") if isinstance(x, bytes) else x.split("{}")
        return "<<" + ", ".join(b(p) for p in parts) + ">>"
    seq("Lengths", Lengths, enc_len)
    seq("Others", Others, lambda x: "<<" + ", ".join(b(h) for h in x) + ">>")
    seq("Bodies", Bodies)
    seq("Excess", Excess)
    f.write("=============================================================================\n")
