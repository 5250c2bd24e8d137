fn main() { ops_crypto::support::serve(ops_crypto::table()) }
