fn main() {
	println!("cargo:rustc-cfg=ethabi_sim");
}
