"""Regenerates the harness crate, its LLVM IR and the native replay drivers from /repo's working tree."""
import os, subprocess, glob, shutil, hashlib, select

from .llir import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FIXNUM_REPO", "/repo")
TOOLCHAIN = "1.90.0"

IR_FLAGS = ("-Zcross-crate-inline-threshold=always -Zinline-mir=no -Zshare-generics=no -Cno-prepopulate-passes "
            "-Cpanic=abort -Cdebug-assertions=on -Coverflow-checks=on -Ccodegen-units=1 -Cpasses=sroa -Cpasses=simplifycfg "
            "--cfg fixnum_verif --emit=llvm-ir")

PRELUDE = '''#![allow(unused, non_camel_case_types, dead_code, internal_features)]
%(feats)s
use fixnum::{FixedPoint, typenum::*, ops::*, ArithmeticError, ConvertError};
use std::convert::TryFrom;
#[repr(C)]
pub struct Io { pub i: [i128; 4], pub o: [i128; 4], pub s: [u8; 64], pub so: [u8; 160], pub n: usize, pub m: usize }
impl Io { pub fn new() -> Io { Io { i: [0; 4], o: [0; 4], s: [0; 64], so: [0; 160], n: 0, m: 0 } } }
#[inline(never)]
pub fn mode(x: i128) -> RoundMode { if x == 0 { RoundMode::Floor } else if x == 1 { RoundMode::Nearest } else { RoundMode::Ceil } }
pub fn aerr(e: ArithmeticError) -> i32 { match e { ArithmeticError::Overflow => 1, ArithmeticError::DivisionByZero => 2, ArithmeticError::DomainViolation => 3, _ => 4 } }
'''

MAIN = '''
use std::io::BufRead;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split(' ').collect();
        let mut io = fxh::Io::new();
        for k in 0..4 { io.i[k] = t[1 + k].parse::<i128>().unwrap_or_else(|_| t[1 + k].parse::<u128>().unwrap() as i128); }
        let s = if t.len() > 5 { t[5] } else { "" };
        io.n = s.len() / 2;
        for k in 0..io.n { io.s[k] = u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap(); }
        let f: fn(&mut fxh::Io) -> i32 = match t[0] {
%(arms)s
            _ => { println!("nofn"); continue; }
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut io)));
        match r {
            Ok(c) => println!("ret {} {} {} {} {} {} {}", c, io.o[0], io.o[1], io.o[2], io.o[3], io.m, hex(&io.so[..io.m.min(160)])),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
                println!("panic {}", m.replace('\\n', " "));
            }
        }
    }
}
'''


class BuildError(Exception):
    pass


def crate_dir(tag):
    return os.path.join(VERIF, "build", tag)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def gen_crate(tag, fns, features=("i16", "i32", "i64", "i128"), std=True, deps="", extra="", rust_features=()):
    """fns: list of (name, body) ; body uses `io: &mut Io` and yields i32"""
    d = crate_dir(tag)
    feats = list(features) + (["std"] if std else [])
    write(d + "/Cargo.toml", '''[package]
name = "fxh"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
fixnum = { path = "%s", default-features = false, features = [%s] }
%s
[profile.dev]
debug = 0
[profile.release]
debug = 0
''' % (REPO, ", ".join('"%s"' % f for f in feats), deps))
    lock = REPO + "/Cargo.lock"
    if not os.path.exists(lock):
        lock = VERIF + "/harness/Cargo.lock"
    if not os.path.exists(d + "/Cargo.lock"):
        shutil.copy(lock, d + "/Cargo.lock")
    src = PRELUDE % dict(feats="".join("#![feature(%s)]\n" % f for f in rust_features)) + extra
    for name, body in fns:
        src += "#[no_mangle] pub fn %s(io: &mut Io) -> i32 { %s }\n" % (name, body)
    write(d + "/src/lib.rs", src)
    arms = "".join('            "%s" => fxh::%s,\n' % (n, n) for n, _ in fns)
    write(d + "/src/main.rs", MAIN % dict(arms=arms))
    return d


def _env(d, sub, flags):
    e = dict(os.environ)
    e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = os.path.join(d, "target-" + sub)
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def start_ir(d):
    for f in glob.glob(d + "/target-ir/release/deps/fxh-*.ll"):
        os.unlink(f)
    for f in glob.glob(d + "/target-ir/release/.fingerprint/fxh-*"):
        shutil.rmtree(f)
    return subprocess.Popen(["cargo", "build", "--offline", "--release", "--lib"], cwd=d,
                            env=_env(d, "ir", IR_FLAGS), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def start_native(d, profile):
    args = ["cargo", "build", "--offline"] + (["--release"] if profile == "release" else [])
    return subprocess.Popen(args, cwd=d, env=_env(d, "native-" + profile, "--cfg fixnum_verif -Awarnings"), stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True)


def newest(pat):
    l = sorted(glob.glob(pat), key=os.path.getmtime)
    return l[-1] if l else None


HOST_ONLY = {"fxh", "syn", "quote", "proc_macro2", "unicode_ident", "unicode_xid", "derive_more", "derive_more_impl",
             "const_format_proc_macros", "impl_trait_for_tuples", "konst_macro_rules", "serde_derive", "rustversion"}


def load_module(d):
    """the harness module linked with the modules of fixnum and of its dependencies"""
    p = newest(d + "/target-ir/release/deps/fxh-*.ll")
    if p is None:
        raise BuildError("no IR module produced")
    m = Module(open(p).read())
    names = sorted(set(os.path.basename(q).rsplit("-", 1)[0] for q in glob.glob(d + "/target-ir/release/deps/*.ll")) - HOST_ONLY)
    if "fixnum" not in names:
        raise BuildError("no IR module for fixnum")
    for i, dep in enumerate(names):
        q = newest(d + "/target-ir/release/deps/%s-*.ll" % dep)
        m.link(open(q).read(), ".dep%d" % i)
    return m


def stale(d):
    """several modules of one crate: left over from a build with other settings, and the newest file need not be the current one"""
    names = [os.path.basename(q).rsplit("-", 1)[0] for q in glob.glob(d + "/target-ir/release/deps/*.ll")]
    return any(names.count(n) > 1 for n in set(names) - HOST_ONLY)


def build_all(dirs, optional=()):
    """builds every crate; returns the optional ones that do not build"""
    failed = []
    for i in range(0, len(dirs), 2):
        ps = []
        for d in dirs[i:i + 2]:
            ps += [(d, "ir", start_ir(d)), (d, "dev", start_native(d, "dev")), (d, "release", start_native(d, "release"))]
        err = []
        for d, k, p in ps:
            out, e = p.communicate()
            if k == "ir" and not p.returncode and stale(d):
                shutil.rmtree(d + "/target-ir")
                p = start_ir(d)
                out, e = p.communicate()
            if p.returncode and d in optional:
                failed.append(d)
            elif p.returncode:
                err.append("%s %s: %s" % (d, k, e[-3000:]))
        if err:
            raise BuildError("\n".join(err[:1]))
    return failed


def native_path(d, profile):
    return d + "/target-native-%s/%s/fxh" % (profile, "release" if profile == "release" else "debug")


class Native:
    """line-based replay driver for one profile"""

    def __init__(self, path):
        self.path = path
        self.p = None
        self.runs = 0

    def call(self, fn, ints, s=b""):
        self.runs += 1
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            ints = list(ints) + [0] * (4 - len(ints))
            line = "%s %d %d %d %d" % ((fn,) + tuple(ints)) + (" " + s.hex() if s else "") + "\n"
            try:
                self.p.stdin.write(line)
                self.p.stdin.flush()
                if not select.select([self.p.stdout], [], [], 20)[0]:
                    self.p.kill()
                    self.p.wait()
                    self.p = None
                    return ("hang", "no answer within 20 s", None, b"")
                out = self.p.stdout.readline()
            except BrokenPipeError:
                out = ""
            if out:
                break
            self.p.wait()
            rc = self.p.returncode
            self.p = None
            return ("crash", "process ended with status %s" % rc, None, b"")
        t = out.rstrip("\n").split(" ")
        if t[0] == "ret":
            return ("ret", int(t[1]), [int(x) for x in t[2:6]], bytes.fromhex(t[7]) if len(t) > 7 else b"", int(t[6]))
        if t[0] == "nofn":
            raise BuildError("no such harness function " + fn)
        return ("panic", " ".join(t[1:]), None, b"")

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
