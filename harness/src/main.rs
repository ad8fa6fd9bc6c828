mod alloc;
mod blob;
mod case;
mod comps;
mod props;
mod many;
mod res;
mod run;
mod setops;
mod util;
mod world;

thread_local! {
    /// a panic is part of what the case expects
    pub static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn main() {
    run::main()
}
