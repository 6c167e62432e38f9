include!(env!("MAC_GEN"));
fn main() {
    let _ = vmon::props::mac::TABLE.set(TABLE);
    vmon::run()
}
