#!/usr/bin/env python3
"""Mirrors the two library crates of /repo that the simulator links into /verif/build/ws.

/repo itself cannot be resolved by cargo without the network (git dependency `salt`, and a
build script that runs forge), so the sources are *copied* here, file by file and only when their
content changed (so cargo's mtime fingerprints follow the content), with these differences:
 - Cargo.toml: no `salt`, no dev-dependencies, no bench/test targets, two workspace members;
 - crates/system-contracts/build.rs: /repo's text in a module, entry point without the forge step.
 - crates/state-test (linked by the second simulator only): `std::` reads `simstd::` and the print
   macros are simstd's, so that its threads, locks, atomics, clock, file reads and exit run under the
   scheduler; its command line is additionally compiled as a module.
Everything else is byte-for-byte /repo's working tree.
"""
import os, re, shutil, sys

REPO = os.environ.get("MEGASIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.environ.get("MEGASIM_WS", os.path.join(HERE, "build", "ws"))
ST = "crates/state-test"
CRATES = {"crates/mega-evm": ["src"], "crates/system-contracts": None, ST: ["src"]}
SKIP_DIRS = {"target", ".git", "cache", "out", "tests", "benches", "lib"}

BUILD_MAIN = """#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
"""
BUILD_TAIL = """
/// Added by mirror.py: main() without the forge compile-and-compare step.
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
"""


def read(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def root_manifest():
    text = read("Cargo.toml")
    text = re.sub(r"members\s*=\s*\[.*?\]",
                  'members = ["crates/mega-evm", "crates/system-contracts", "crates/state-test"]', text, count=1, flags=re.S)
    text = re.sub(r"default-members\s*=\s*\[.*?\]\n", "", text, count=1, flags=re.S)
    return re.sub(r"^(salt|mega-evme|mega-state-test|state-test)\s*=.*\n", "", text, flags=re.M)


def member_manifest(rel):
    text = re.sub(r"^salt(\.workspace)?\s*=.*\n", "", read(rel), flags=re.M)
    text = text.replace('["dep:salt"]', "[]")
    out, skip = [], False
    for line in text.splitlines(True):
        if line.startswith("["):
            skip = line.strip() in ("[dev-dependencies]", "[[bench]]", "[[test]]", "[[example]]")
        if not skip:
            out.append(line)
    return "".join(out)


def build_upstream():
    text = read("crates/system-contracts/build.rs")
    found = re.search(r"^    let contracts = \[.*?^    \];$", text, flags=re.M | re.S)
    if not found:
        sys.exit("mirror.py: no contracts table in crates/system-contracts/build.rs")
    return text + BUILD_TAIL % found.group(0)


def simulated(text):
    text = re.sub(r"\bcore::(?=sync::|time::)", "std::", text)
    text = re.sub(r"\bstd::", "simstd::", text)
    return re.sub(r"(?<![\w:])(e?print(?:ln)?)!", r"simstd::\1!", text)


def command_line():
    """The binary's source as a module of the library, reading its arguments from the simulator.
    None when it has another shape than one parse() of the arguments."""
    try:
        text = read(ST + "/src/main.rs")
    except OSError:
        return None
    if len(re.findall(r"(\w+)::parse\(\)", text)) != 1 or not re.search(r"^fn main\(\)", text, re.M):
        return None
    text = re.sub(r"(\w+)::parse\(\)", r"\1::parse_from(simstd::sim::args())", text)
    text = re.sub(r"^#!\[.*\]\n", "", text, flags=re.M)
    text = simulated(re.sub(r"\bstate_test::", "crate::", text))
    return text + """
/// Added by mirror.py: the process's exit status.
pub fn invoke() -> bool {
    let code = ::std::process::Termination::report(main());
    format!("{code:?}") == format!("{:?}", ::std::process::ExitCode::SUCCESS)
}
"""


def state_test(files):
    if ST + "/Cargo.toml" not in files or ST + "/src/lib.rs" not in files:
        return
    for rel in [r for r in files if r.startswith(ST + "/") and r.endswith(".rs")]:
        files[rel] = ("text", simulated(files[rel][1]))
    text = files[ST + "/Cargo.toml"][1]
    dep = '[dependencies]\nsimstd = { path = "%s" }\n' % os.path.join(HERE, "strun", "simstd")
    text = text.replace("[dependencies]\n", dep, 1)
    if "[features]" in text:
        text = text.replace("[features]\n", "[features]\nsimcli = []\n", 1)
    else:
        text += "\n[features]\nsimcli = []\n"
    files[ST + "/Cargo.toml"] = ("text", text)
    cli = command_line()
    lib = files[ST + "/src/lib.rs"][1]
    if cli is not None and ST + "/src/sim_cli.rs" not in files:
        files[ST + "/src/sim_cli.rs"] = ("text", cli)
        lib += '\n#[cfg(feature = "simcli")]\n#[allow(missing_docs)]\npub mod sim_cli;\n'
    files[ST + "/src/lib.rs"] = ("text", lib)


def wanted():
    files = {"Cargo.toml": ("text", root_manifest())}
    for crate, only in CRATES.items():
        for base, dirs, names in os.walk(os.path.join(REPO, crate)):
            rel_base = os.path.relpath(base, REPO)
            if only is not None and rel_base == crate:
                dirs[:] = [d for d in dirs if d in only]
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            for name in names:
                rel = os.path.join(rel_base, name)
                src = os.path.join(base, name)
                if rel == "crates/system-contracts/build.rs":
                    files[rel] = ("text", BUILD_MAIN)
                elif name == "Cargo.toml":
                    files[rel] = ("text", member_manifest(rel))
                elif os.path.islink(src) and not os.path.isabs(os.readlink(src)):
                    files[rel] = ("link", os.readlink(src))
                else:
                    try:
                        files[rel] = ("text", read(rel))
                    except UnicodeDecodeError:
                        continue
    state_test(files)
    files["crates/system-contracts/build_upstream.rs"] = ("text", build_upstream())
    return files


def current(path):
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as f:
            return ("text", f.read())
    return None


def main():
    files = wanted()
    for base, dirs, names in os.walk(WS, topdown=False):
        for name in names + [d for d in dirs if os.path.islink(os.path.join(base, d))]:
            path = os.path.join(base, name)
            if os.path.relpath(path, WS) not in files:
                os.unlink(path)
    for rel, entry in files.items():
        path = os.path.join(WS, rel)
        if current(path) == entry:
            continue
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        elif os.path.lexists(path):
            os.unlink(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        kind, content = entry
        if kind == "link":
            os.symlink(content, path)
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.write(content)


main()
