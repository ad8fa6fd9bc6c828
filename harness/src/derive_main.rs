//! A program of its own: it needs the library only as text for the compiler, so that it
//! builds even where the derive macros fail for the components of the other program.
mod borrows;
mod derive;
mod util;

fn main() {
    let a = util::Args::new();
    match a.command() {
        Some("borrows") => borrows::main(&a),
        _ => derive::main(&a),
    }
}
