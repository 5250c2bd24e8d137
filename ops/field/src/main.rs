fn main() { ops_field::support::serve(ops_field::table()) }
