fn main() {
    vmon::run()
}
