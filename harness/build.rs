use std::process::Command;
fn main() {
  let out = std::env::var("OUT_DIR").unwrap();
  let obj = format!("{out}/vsim.o");
  let st = Command::new("gcc")
    .args(["-O2", "-g", "-fno-delete-null-pointer-checks", "-fno-builtin-malloc", "-w", "-fno-pie", "-c", "../sim/vsim.c", "-o", &obj])
    .status()
    .expect("gcc");
  assert!(st.success());
  println!("cargo:rustc-link-arg-bins={obj}");
  println!("cargo:rustc-link-arg-bins=-ldl");
  println!("cargo:rerun-if-changed=../sim/vsim.c");
  println!("cargo:rerun-if-changed=../sim/vsim.h");
}
