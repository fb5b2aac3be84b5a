pub mod util;
pub mod dns;
pub mod json;
pub mod keys;
pub mod world;
pub mod c_chain;
pub mod c_codec;
pub mod c_work;
pub mod c_query;
pub mod c_fuzz;
pub mod net;
pub mod c_build;
pub mod c_http;
pub mod c_prod;
pub mod c_err;
pub mod c_conf;

pub fn checks() -> Vec<util::Check> {
	let mut v = c_chain::checks();
	v.extend(c_codec::checks());
	v.extend(c_work::checks());
	v.extend(c_query::checks());
	v.extend(c_fuzz::checks());
	v.extend(c_build::checks());
	v.extend(c_http::checks());
	v.extend(c_prod::checks());
	v.extend(c_err::checks());
	v.extend(c_conf::checks());
	v.sort_by_key(|c| c.id);
	v
}
