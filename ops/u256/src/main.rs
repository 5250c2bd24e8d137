fn main() { ops_u256::support::serve(ops_u256::table()) }
