use crate::Prop;
pub mod lex;
pub mod par;
pub mod data;
pub mod ctxp;
pub mod concp;
pub mod atnp;
pub mod genp;
pub mod cachep;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(lex::props());
    v.extend(par::props());
    v.extend(data::props());
    v.extend(ctxp::props());
    v.extend(concp::props());
    v.extend(atnp::props());
    v.extend(genp::props());
    v.extend(cachep::props());
    v
}
