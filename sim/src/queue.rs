//! Discrete-event time: the simulated clock jumps from event to event.

use crate::seam;
use crate::shm::sh;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

pub struct Queue<E> {
    pub now: u64,
    seq: usize,
    heap: BinaryHeap<Reverse<(u64, usize)>>,
    items: Vec<Option<E>>,
}

impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { now: 0, seq: 0, heap: BinaryHeap::new(), items: vec![] }
    }
    pub fn push(&mut self, delay: u64, e: E) {
        self.heap.push(Reverse((self.now + delay, self.seq)));
        self.items.push(Some(e));
        self.seq += 1;
    }
    pub fn pop(&mut self) -> Option<E> {
        let Reverse((t, i)) = self.heap.pop()?;
        self.now = t;
        seam::clock_set(t);
        sh().sim_us = t;
        self.items[i].take()
    }
}
