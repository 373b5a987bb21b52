mod wire;
mod proof;
pub mod crypto;
pub mod server;
mod table;
mod inbox;
mod client;
mod forward;
pub mod e2e;
mod adaptor;
mod secrecy;
mod dates;
mod records;
mod remains;
mod abandoned;
mod concurrent;

pub fn all() -> Vec<crate::engine::Check> {
    vec![
        wire::c01(),
        wire::c02(),
        wire::c03(),
        crypto::c04(),
        crypto::c05(),
        crypto::c06(),
        crypto::c07(),
        wire::c08(),
        crypto::c09(),
        crypto::c10(),
        proof::c11(),
        proof::c12(),
        proof::c13(),
        crypto::c14(),
        server::c15(),
        server::c16(),
        server::c17(),
        server::c18(),
        table::c19(),
        table::c20(),
        inbox::c21(),
        inbox::c22(),
        inbox::c23(),
        inbox::c24(),
        client::c25(),
        client::c26(),
        client::c27(),
        e2e::c28(),
        client::c29(),
        forward::c30(),
        wire::c31(),
        secrecy::c32(),
        adaptor::c33(),
        dates::c34(),
        concurrent::c35(),
        concurrent::c36(),
        records::c37(),
        records::c38(),
        remains::c39(),
        abandoned::c40(),
    ]
}
