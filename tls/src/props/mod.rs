pub mod c28;
use crate::engine::*;
pub fn find(id: &str) -> Option<(&'static Meta, fn(&mut Ctx))> {
    match id {
        "C28" => Some((&c28::META, c28::run)),
        _ => None,
    }
}
