fn main() {
    mc::cli(mc::props::all)
}
