# shared by the demonstrations: compiles a description with the real compiler, appends a main
# program, builds it with rustc and runs it; everything happens in a scratch directory
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
tool() {  # build the driver program once
    [ -x "$W/t/debug/dh" ] && return 0
    mkdir -p "$W/dh/src"
    cat > "$W/dh/Cargo.toml" <<X
[package]
name = "dh"
version = "0.0.0"
edition = "2021"
[dependencies]
protospec-build = { path = "$REPO/protospec-build" }
proc-macro2 = "*"
[workspace]
X
    if [ -f "$D/driver.rs" ]; then cp "$D/driver.rs" "$W/dh/src/main.rs"; else cat > "$W/dh/src/main.rs" <<'X'
use protospec_build::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spec = std::fs::read_to_string(&a[1]).unwrap();
    let resolver = PreludeImportResolver(NullImportResolver);
    let ast = match parse(&spec) { Ok(x) => x, Err(e) => { eprintln!("PARSE-ERROR {:?}", e); std::process::exit(3) } };
    let program = match asg::Program::from_ast(&ast, &resolver) { Ok(x) => x, Err(e) => { eprintln!("ASG-ERROR {}", e); std::process::exit(4) } };
    let opts = CompileOptions { include_async: std::env::var("DH_ASYNC").is_ok(), ..Default::default() };
    print!("{}", compiler::compile_program(&program, &opts));
}
X
    fi
    cp "$REPO/Cargo.lock" "$W/dh/Cargo.lock"
    (cd "$W/dh" && CARGO_TARGET_DIR="$W/t" cargo build -q --offline) >"$W/log" 2>&1 || { tail -20 "$W/log"; exit 99; }
}
gen() { tool; "$W/t/debug/dh" "$@"; }        # gen SPEC -> generated code on stdout
run() {                                       # run SPEC MAIN: exit status of the generated program
    gen "$1" > "$W/gen.rs" || return $?
    cat "$2" >> "$W/gen.rs"
    rustc --edition 2018 -Awarnings -o "$W/prog" "$W/gen.rs" 2> "$W/rlog" || { head -30 "$W/rlog"; return 98; }
    timeout 60 "$W/prog"
}
