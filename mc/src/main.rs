mod build;
mod climc;
mod common;
mod copymc;
mod dirmc;
mod dirs;
mod fstmc;
mod handimg;
mod limitmc;
mod malmc;
mod multimc;
mod pymc;
mod readmc;
mod structmc;
mod windowmc;

#[global_allocator]
static COUNTING: common::Counting = common::Counting;

fn main() {
    let mut props = Vec::new();
    props.extend(build::properties());
    props.extend(fstmc::properties());
    props.extend(multimc::properties());
    props.extend(readmc::properties());
    props.extend(malmc::properties());
    props.extend(structmc::properties());
    props.extend(dirmc::properties());
    props.extend(pymc::properties());
    props.extend(climc::properties());
    props.extend(copymc::properties());
    props.extend(limitmc::properties());
    props.extend(windowmc::properties());
    mclib::main_with(props)
}
