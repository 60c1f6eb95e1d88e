include!("../tree_driver.rs");
fn main() {
    main_with(&[tree_model()]);
}
