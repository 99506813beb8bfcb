pub mod bytes;
mod errors;
mod hist;
mod native;
mod state;
mod tagged;
pub mod ub;
mod values;
mod write;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(bytes::props());
    v.extend(values::props());
    v.extend(write::props());
    v.extend(native::props());
    v.extend(tagged::props());
    v.extend(state::props());
    v.extend(hist::props());
    v.extend(errors::props());
    v.extend(ub::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Prop {
    all().into_iter().find(|p| p.id == id).expect("a property of that id")
}
