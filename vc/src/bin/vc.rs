#[cfg(not(kani))]
#[path = "../run.rs"]
mod run;

#[cfg(not(kani))]
fn main() {
    run::main()
}

#[cfg(kani)]
fn main() {}
