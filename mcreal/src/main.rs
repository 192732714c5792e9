#[path = "../../mc/src/content.rs"]
mod content;
#[path = "../../mc/src/driver.rs"]
mod driver;
#[path = "../../mc/src/hist.rs"]
mod hist;
#[path = "../../mc/src/ops.rs"]
mod ops;
mod disk;

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(|s| s.into()).unwrap_or_else(|| std::path::PathBuf::from("/verif"))
}

fn main() {
    let checks: Vec<(&str, driver::CheckFn)> = vec![("C03", disk::c03)];
    std::process::exit(driver::main_with(&checks, root(), 20));
}
