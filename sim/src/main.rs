#![allow(clippy::all)]
mod driver;
mod fw;
mod elem;
mod geo;
mod gmodel;
mod graphs;
mod lexer;
mod plan;
mod pq;
mod ramp;
mod vecopt;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn props() -> Vec<fw::Prop> {
    let mut v = vec![];
    v.extend(vecopt::props());
    v.extend(ramp::props());
    v.extend(pq::props());
    v.extend(graphs::props());
    v.extend(lexer::props());
    v.extend(geo::props());
    v.extend(plan::props());
    v
}

fn main() {
    driver::main(props());
}
