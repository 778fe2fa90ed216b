mod gen;
mod grow;
mod props;
mod queue;
mod reader;
mod schema;
mod sched;
mod seam;
mod snap;
#[macro_use]
mod shm;
mod driver;
mod tape;
mod wire;
mod zygote;

fn main() {
    sched::init();
    driver::main()
}
