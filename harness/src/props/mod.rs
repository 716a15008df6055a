use crate::engine::Prop;

pub mod chg;
pub mod chunk;
pub mod coord;
pub mod cursor;
pub mod files;
pub mod indep;
pub mod objs;
pub mod pbfr;
pub mod stream;
pub mod term;
pub mod tools;
pub mod trans;
pub mod ts;
pub mod xmlr;
pub mod xmlw;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(xmlw::props());
    v.extend(xmlr::props());
    v.extend(pbfr::props());
    v.extend(cursor::props());
    v.extend(chunk::props());
    v.extend(chg::props());
    v.extend(coord::props());
    v.extend(ts::props());
    v.extend(objs::props());
    v.extend(files::props());
    v.extend(trans::props());
    v.extend(tools::props());
    v.extend(term::props());
    v.extend(stream::props());
    v.extend(indep::props());
    v.sort_by_key(|p| p.id);
    v
}
