//! C08: owned containers through the FFI; C09: C strings.
#![allow(clippy::all)]
mod cstr;
mod vecs;

#[global_allocator]
static A: vc::track::TrackAlloc = vc::track::TrackAlloc;

fn main() {
    let mut s = vc::Session::new();
    match &*s.args.property {
        "C08" => vecs::phases(&mut s),
        "C09" => cstr::phases(&mut s),
        p => panic!("unknown property {p}"),
    }
    s.finish()
}
