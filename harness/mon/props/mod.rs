use crate::ctx::{Ctx, Res};

mod caller;
mod channel;
mod defect;
mod edit;
mod errors;
mod iter;
mod load;
mod mem;
mod nav;
mod save;
pub mod value;

/// One case of one property.
pub fn run(prop: &str, cx: &mut Ctx) -> Res {
    match prop {
        "C01" => load::never_panics(cx),
        "C02" => load::memory(cx),
        "C03" => load::skeleton(cx),
        "C04" => load::numbers(cx),
        "C05" => load::layout(cx),
        "C06" => load::sound(cx),
        "C07" => load::entry_points(cx),
        "C08" => load::faults(cx),
        "C09" => load::truncation(cx),
        "C10" => defect::rejected(cx),
        "C11" => defect::named(cx),
        "C12" => save::roundtrip(cx),
        "C13" => save::format(cx),
        "C14" => save::precision(cx),
        "C15" => save::sinks(cx),
        "C16" => save::canonical(cx),
        "C17" => edit::cursor(cx),
        "C18" => edit::rejected(cx),
        "C19" => iter::frames(cx),
        "C20" => iter::channels(cx),
        "C21" => nav::navigation(cx),
        "C23" => mem::everything(cx),
        "C24" => value::pure(cx),
        "C25" => channel::channels(cx),
        "C26" => value::histories(cx),
        "C27" => value::values(cx),
        "C28" => caller::abandoned(cx),
        "C29" => caller::printed(cx),
        _ => panic!("no such property: {}", prop),
    }
}
