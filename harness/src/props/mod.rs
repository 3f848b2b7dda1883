pub mod broker;
pub mod broker2;
pub mod cli;
pub mod client;
pub mod codec;
pub mod e2e;
pub mod flow;
pub mod hostile;
pub mod leaks;
pub mod life;
pub mod races;
pub mod stream;
use crate::runner::Property;

pub fn all() -> Vec<fn() -> Property> {
    vec![
        codec::c01, codec::c02, codec::c03, codec::c04p, codec::c05, codec::c06, codec::c07,
        codec::c08,
        stream::s01p, stream::s02p, stream::s03p,
        broker::b01p, broker::b02p, broker::b03p, broker::b04p, broker::b05p, broker::b06p, broker::b07p,
        broker::b08p, broker::b09p, broker::b10p, broker::b11p, broker::b12p,
        life::b13, flow::b14, leaks::b15, broker::b16p,
        client::k01, client::k02, client::k03, client::k04, client::k05, client::k06, client::k07,
        e2e::e01, cli::v01,
    ]
}
