//! Exhaustive enumeration of nondeterministic choices by re-execution: run the body once per
//! sequence of answers to `choose`, in depth-first order, until every sequence was taken.
pub struct Chooser {
    path: Vec<(usize, usize)>,
    pos: usize,
}

impl Default for Chooser {
    fn default() -> Self {
        Self::new()
    }
}

impl Chooser {
    pub fn new() -> Self {
        Chooser { path: vec![], pos: 0 }
    }
    /// A value in 0..n; every value is eventually returned at this point.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() {
            self.path.push((0, n));
        }
        let (v, m) = self.path[self.pos];
        assert_eq!(m, n, "nondeterministic replay: choice point changed arity");
        self.pos += 1;
        v
    }
    /// Advance to the next unexplored sequence; false when all were explored.
    pub fn advance(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((v, n)) = self.path.pop() {
            if v + 1 < n {
                self.path.push((v + 1, n));
                return true;
            }
        }
        false
    }
    pub fn trail(&self) -> Vec<usize> {
        self.path[..self.pos].iter().map(|p| p.0).collect()
    }
}

/// Run `f` on every choice sequence; returns the number of executions.
pub fn explore(mut f: impl FnMut(&mut Chooser) -> Result<(), String>) -> Result<u64, String> {
    let mut c = Chooser::new();
    let mut n = 0;
    loop {
        n += 1;
        f(&mut c).map_err(|e| format!("choices {:?}: {e}", c.trail()))?;
        if !c.advance() {
            return Ok(n);
        }
    }
}
