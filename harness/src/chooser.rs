//! Stateless depth-first exploration of choice trees.
//!
//! A scenario is an ordinary closure that calls [`Chooser::choose`] whenever
//! there is more than one way to go on. [`explore`] runs it once for every
//! leaf of the resulting tree, in lexicographic order, without sampling.

pub struct Chooser {
    trail: Vec<(u32, u32)>,
    pos: usize,
}

impl Chooser {
    pub fn new() -> Self {
        Chooser { trail: Vec::new(), pos: 0 }
    }

    /// Replays exactly the given choices (further choices take branch zero).
    pub fn replay(choices: &[u32]) -> Self {
        Chooser { trail: choices.iter().map(|c| (*c, u32::MAX)).collect(), pos: 0 }
    }

    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if self.pos == self.trail.len() {
            self.trail.push((0, n as u32));
        } else {
            let t = &mut self.trail[self.pos];
            if t.1 == u32::MAX {
                t.1 = n as u32;
            }
            // A different number of branches while replaying a prefix means
            // that the scenario is not deterministic: a hard error.
            assert!(t.1 == n as u32, "nondeterministic scenario: {} branches instead of {}", n, t.1);
            assert!(t.0 < t.1, "replayed choice out of range");
        }
        let c = self.trail[self.pos].0;
        self.pos += 1;
        c as usize
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.choose(items.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Starts again with the choices as they stand.
    pub fn restart(&mut self) { self.pos = 0 }
    /// Whether the next choice has not been made before.
    pub fn at_end(&self) -> bool { self.pos == self.trail.len() }

    pub fn choices(&self) -> Vec<u32> {
        self.trail[..self.pos].iter().map(|t| t.0).collect()
    }

    /// The choices that the next run is bound to make.
    pub fn planned(&self) -> Vec<u32> {
        self.trail.iter().map(|t| t.0).collect()
    }

    /// Moves on to the next leaf; false when the tree is exhausted.
    pub fn advance(&mut self) -> bool {
        self.trail.truncate(self.pos);
        while let Some((c, n)) = self.trail.pop() {
            if c + 1 < n {
                self.trail.push((c + 1, n));
                self.pos = 0;
                return true;
            }
        }
        false
    }
}

/// Runs `f` on every leaf of its choice tree; returns the number of leaves.
pub fn explore(mut f: impl FnMut(&mut Chooser)) -> u64 {
    let mut ch = Chooser::new();
    let mut leaves = 0;
    loop {
        ch.pos = 0;
        f(&mut ch);
        leaves += 1;
        if !ch.advance() {
            return leaves;
        }
    }
}
