#!/usr/bin/env python3
"""v1gen.py REPO OUTDIR [ARITY]: what v1compat/gen/gen_message_macros.rb does (there is no ruby here), from the
repository's own templates, into OUTDIR/gen."""
import os, re, sys
repo, out = sys.argv[1], os.path.join(sys.argv[2], "gen")
arity = int(sys.argv[3]) if len(sys.argv) > 3 else 5
src = os.path.join(repo, "v1compat", "gen")
os.makedirs(out, exist_ok=True)

def read(n):
    with open(os.path.join(src, n)) as f:
        return f.read()

def params(n):
    if n == 0:
        return dict(arity="0", args="", arg_types="", args_coma="", args_signature="", coma_args_signature="",
                    coma_args="", coma_arg_types="", fwd_args="", coma_fwd_args="")
    a = ["a%d" % i for i in range(n)]
    t = ["arg%d_type" % i for i in range(n)]
    sig = ", ".join(x + " " + y for x, y in zip(t, a))
    fwd = ", ".join("std::forward<%s>(%s)" % z for z in zip(t, a))
    return dict(arity=str(n), args=", ".join(a), arg_types=", ".join(t),
                args_coma=", " + ", ".join(x + ", " + y for x, y in zip(t, a)),
                args_signature=sig, coma_args_signature=", " + sig, coma_args=", " + ", ".join(a),
                coma_arg_types=", " + ", ".join(t), fwd_args=fwd, coma_fwd_args=", " + fwd)

def expand(text, p):
    return re.sub(r"%\{(\w+)\}", lambda m: p[m.group(1)], text)

def write(n, text):
    with open(os.path.join(out, n), "w") as f:
        f.write("// made from the templates in v1compat/gen\n" + text)

def all_of(n):
    t = read(n)
    return "".join(expand(t, params(i)) for i in range(arity + 1))

write("template_message_macros.ipp", all_of("message_macros_template"))
write("arity_message_macros.ipp", "#include <limits>\n#include <type_traits>\n" + all_of("arity_message_macros_template"))
write("create_combinator_call.ipp", all_of("create_combinator_call_template"))
