//! S01: topological_sort::run against reachability.
use crate::sx;
use llrl::topological_sort::{run, DependencyList};

struct Node { me: usize, deps: Vec<u64> }
impl DependencyList<u64> for Node {
    fn traverse_dependencies(&self, f: &mut impl FnMut(&u64)) { for d in &self.deps { f(d) } }
}

/// n nodes and every dependency relation over them (each node may also depend on a key that is not
/// there); keys arbitrary when `anykey`; dependencies listed upwards or downwards.
#[no_mangle]
pub extern "C" fn h_topo(n: u64, anykey: u64) {
    let n = n as usize;
    let keys: Vec<u64> = if anykey != 0 { (0..n + 1).map(|_| sx::u64()).collect() } else { (0..n as u64 + 1).map(|k| k * 3 + 1).collect() };
    for i in 0..keys.len() { for j in 0..i { sx::assume(keys[i] != keys[j]); } }
    let down = sx::int(1) == 1;
    let mut adj = vec![vec![false; n]; n];
    let mut nodes = vec![];
    for i in 0..n {
        let mut deps = vec![];
        for j in 0..n { if sx::int(1) == 1 { adj[i][j] = true; deps.push(keys[j]); } }
        if i == 0 { deps.push(keys[n]); }
        if down { deps.reverse(); }
        nodes.push((keys[i], Node { me: i, deps }));
    }
    let mut reach = adj.clone();
    for k in 0..n { for i in 0..n { for j in 0..n { if reach[i][k] && reach[k][j] { reach[i][j] = true; } } } }
    let res = run(nodes);
    let mut place = vec![usize::MAX; n];
    for (g, vs) in res.iter().enumerate() {
        sx::check(!vs.is_empty(), c"no empty group");
        for v in vs {
            sx::check(v.me < n && place[v.me] == usize::MAX, c"a node is listed once");
            place[v.me] = g;
        }
    }
    for i in 0..n {
        sx::check(place[i] != usize::MAX, c"every node is listed");
        for j in 0..n {
            if i != j { sx::check((place[i] == place[j]) == (reach[i][j] && reach[j][i]), c"a group is the nodes that depend on one another"); }
            if adj[i][j] { sx::check(place[j] <= place[i], c"dependencies come first"); }
        }
    }
    sx::observe(1, res.len() as u64);
    sx::reach(1);
}
