mod content;
mod driver;
mod equality;
mod events;
mod hist;
mod lookups;
mod notes;
mod ops;
mod pitches;
mod play;
mod proj;
mod side;
mod text;
mod values;

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(|s| s.into()).unwrap_or_else(|| std::path::PathBuf::from("/verif"))
}

/// Digests of the histories that the on-disk explorer runs, from the in-memory one.
fn traces(quick: bool) {
    use hist::*;
    use klavier_core::project::{ProjectImpl, ProjectStore};
    use serdo::undo_store::UndoStore;
    let mut out = String::new();
    for (si, sc) in scenarios(quick).iter().enumerate() {
        let n = sc.acts.len();
        'paths: for i in 0..paths(n, sc.depth) {
            let p = path(i, n, sc.depth);
            let mut s: ProjectStore = ProjectStore::from_model(ProjectImpl::default());
            let Ok(c) = content::read(s.model()) else { continue };
            let mut h = digest(0xcbf29ce484222325, &c);
            for a in sc.setup.iter().map(|o| Act::Do(o.clone())).chain(p.iter().map(|i| sc.acts[*i].clone())) {
                let Act::Do(op) = a else { continue 'paths };
                op.apply(&mut s);
                let Ok(c) = content::read(s.model()) else { continue 'paths };
                h = digest(h, &c);
            }
            out += &format!("{si} {i} {h}\n");
        }
    }
    print!("{out}");
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--traces") {
        return traces(std::env::args().nth(2).as_deref() != Some("thorough"));
    }
    let checks: Vec<(&str, driver::CheckFn)> = vec![
        ("C01", proj::c01),
        ("C02", proj::c02),
        ("C04", proj::c04),
        ("C05", proj::c05),
        ("C06", events::c06),
        ("C07", lookups::c07),
        ("C08", lookups::c08),
        ("C09", play::c09),
        ("C10", play::c10),
        ("C11", play::c11),
        ("C12", play::c12),
        ("C13", pitches::c13),
        ("C14", text::c14),
        ("C15", text::c15),
        ("C16", text::c16),
        ("C17", pitches::c17),
        ("C18", notes::c18),
        ("C19", notes::c19),
        ("C20", values::c20),
        ("C21", values::c21),
        ("C22", values::c22),
        ("C23", values::c23),
        ("C24", notes::c24),
        ("C25", values::c25),
        ("C26", equality::c26),
        ("C27", side::c27),
    ];
    std::process::exit(driver::main_with(&checks, root(), 12));
}
