#!/usr/bin/env python3
"""Writes the template that C25 compiles to WebAssembly, and the same template for the SDK's mocks."""
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "Amount", "Address"]
LEN = [3, 10, 7, 1, 9, 8, 5, 2, 4, 6, 3]
n = lambda t: t.lower()
ref = lambda t, x: "&" + x if t == "Address" else x
def make(name, sdk, loops, native=False):
    out = ["    #[storage]", "    struct Storage {"]
    # Arrays among plain variables, so that a wrong width or count shifts what follows.
    for t, l in zip(T, LEN):
        out += [f"        v_{n(t)}: {t},", f"        r_{n(t)}: [{t}; {l}],"]
    out += ["        last: u16,", "    }", ""]

    def fn(attr, sig, body):
        out.extend([f"    #[{attr}]", f"    fn {sig} {{"] + ["        " + b for b in body] + ["    }", ""])

    if loops: fn("ctor", "initialize(a: bool, b: i8, c: u16, d: u32, e: i64, f: Amount, g: Address, h: [u32; 5]) -> u64",
       ["Storage::set_v_bool(a);", "Storage::set_v_i8(b);", "Storage::set_v_u16(c);", "Storage::set_v_u32(d);", "Storage::set_v_i64(e);",
        "Storage::set_v_amount(f);", "Storage::set_v_address(&g);"] + [f"Storage::set_r_u32({i}, h[{i}]);" for i in range(5)] + ["Storage::set_last(77);", "f.0"])
    fn("ctor", "first(a: bool, b: i8, c: u16, d: u32, e: i64, f: Amount, g: Address) -> u64",
       ["Storage::set_v_bool(a);", "Storage::set_v_i8(b);", "Storage::set_v_u16(c);", "Storage::set_v_u32(d);", "Storage::set_v_i64(e);",
        "Storage::set_v_amount(f);", "Storage::set_v_address(&g);", "Storage::set_last(78);", "f.0"])
    fn("ctor", "nothing()", [])
    for t, l in zip(T, LEN):
        if t == "bool" and not loops: continue
        fn("endpoint", f"set_{n(t)}(x: {t})", [f"Storage::set_v_{n(t)}({ref(t, 'x')});"])
        fn("endpoint", f"get_{n(t)}() -> {t}", [f"Storage::get_v_{n(t)}()"])
        fn("endpoint", f"put_{n(t)}(i: u32, x: {t})", [f"Storage::set_r_{n(t)}(i as usize, {ref(t, 'x')});"])
        fn("endpoint", f"take_{n(t)}(i: u32) -> {t}", [f"Storage::get_r_{n(t)}(i as usize)"])
        fn("endpoint", f"all_{n(t)}() -> [{t}; {l}]", ["[" + ", ".join(f"Storage::get_r_{n(t)}({i})" for i in range(l)) + "]"])
        fn("endpoint", f"echo_{n(t)}(x: {t}) -> {t}", ["x"])
        if loops: fn("endpoint", f"echo_r_{n(t)}(x: [{t}; {l}]) -> [{t}; {l}]", ["x"])
        fn("endpoint", f"swap_{n(t)}(i: u32, x: {t}) -> ({t}, {t})",
           [f"let was = Storage::get_r_{n(t)}(i as usize);", f"let other = Storage::get_v_{n(t)}();", f"Storage::set_r_{n(t)}(i as usize, {ref(t, 'x')});", "(other, was)"])
    if loops: fn("endpoint", "many(a: Address, b: bool, c: [i16; 3], d: u64, e: i8, f: Amount, g: [Amount; 2], h: u16, i: [bool; 10]) -> (u16, [Amount; 2], Amount, i8, u64)",
       ["(h, g, f, e, d)"])
    if loops: fn("endpoint", "more(a: Address, b: bool, c: [i16; 3], d: u64, e: i8, f: Amount, g: [Amount; 2], h: u16, i: [bool; 10]) -> ([bool; 10], Address, bool, [i16; 3])",
       ["(i, a, b, c)"])
    fn("endpoint", "arith(a: Amount, b: Amount, op: u8) -> Amount",
       ["if op == 0 { return a + b; }", "if op == 1 { return a - b; }", "if op == 2 { return a * b; }", "let mut c = a;",
        "if op == 3 { c += b; }", "if op == 4 { c -= b; }", "if op == 5 { c *= b; }", "if op == 6 { return a + b.0; }", "if op == 7 { return a - b.0; }", "if op == 8 { return a * b.0; }", "c"])
    if loops: fn("endpoint", "check(x: u32, y: u32) -> u32",
       ["Storage::set_v_u32(x);", "svm_sdk::ensure!(x < y, &svm_sdk_std::String::new_short(b\"too big\"));", "y - x"])
    if loops: fn("endpoint", "show(a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: Amount, j: Address)",
       [f"svm_sdk::log(&svm_sdk_std::ToString::to_string(&{c}));" for c in "abcdefghij"] + ["svm_sdk::log(&svm_sdk_std::ToString::to_string(&svm_sdk::LayerId(g)));"])
    fn("endpoint", "plain(a: u8)", ["Node.log(\"a plain message\", a);", "Storage::set_last(a as u16 + 1);"])
    fn("endpoint", "bump() -> u16", ["let x = Storage::get_last();", "Storage::set_last(x.wrapping_add(1));", "Storage::get_last()"])
    fn("endpoint", "silent()", [])
    if native:
        for hook, attr, by in (("usual", "fundable_hook(default)", 1), ("special", "fundable_hook", 1000)):
            out.extend([f"    #[{attr}]", f"    fn {hook}() {{", "        let value = Node::value();",
                        f"        Storage::set_v_amount(Storage::get_v_amount() + value * {by});", "    }", ""])
        for e, attr in (("fund_usual", "#[fundable]"), ("fund_special", "#[fundable(special)]"), ("fund_none", "")):
            if attr:
                out.append("    " + attr)
            fn("endpoint", f"{e}(x: u16) -> (u16, Amount)", ["Storage::set_last(x);", "(x, Storage::get_v_amount())"])
    body = "\n".join(out).rstrip()
    return ("// Written by tools/gen_template.py.\n#![allow(unused, non_snake_case, improper_ctypes_definitions)]\n"
            f"use {sdk}::{{template, Address, Amount}};\n\n#[template]\nmod {name} {{\n{body}\n}}\n").replace("svm_sdk::ensure", sdk + "::ensure").replace("svm_sdk::log", sdk + "::log").replace("svm_sdk::Layer", sdk + "::Layer")

def write(path, text):
    path = f"{root}/{path}"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)

write("templates/all/src/lib.rs", make("All", "svm_sdk", True))
write("templates/fixed/src/lib.rs", make("Fixed", "svm_sdk", False))
native = make("All", "svm_sdk_mock", True, True)
import re
fns = re.findall(r"#\[(?:ctor|endpoint)\]\n    fn (\w+)", native)
native += "\npub fn call(name: &str) -> bool {\n    match name {\n" + "".join(f'        "{f}" => {f}(),\n' for f in fns) + "        _ => return false,\n    }\n    true\n}\n"
write("harness-sdk/src/native_template.rs", native)
