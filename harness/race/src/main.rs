#[global_allocator]
static ARENA: sched::Arena = sched::Arena;

fn main() {
    race_programs::main()
}
