//! Runtime of the deterministic simulator.
//!
//! Everything here is compiled WITHOUT instrumentation. The code under test calls into it
//! from every basic block, load and store (sanitizer-coverage callbacks), from every allocation,
//! and from every intercepted libc call. Exactly one task runs at any time; which one is decided
//! here, from the run's seed or from the recorded schedule of a replay file.
#![allow(static_mut_refs)]

pub mod alloc;
pub mod interpose;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sys;

pub use rng::Rng;

/// Counters: fault kinds that actually fired, and probes.
macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Ctr { $($name),* , _COUNT }
        pub const CTR_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
counters! {
    // faults that fired
    fault_panic_clone, fault_panic_drop, fault_panic_cmp, fault_panic_hash, fault_panic_next,
    fault_panic_callback, fault_panic_log, fault_panic_sink, fault_panic_fmt,
    fault_sink_error, fault_sink_short, fault_stdout_error, fault_stdout_short, fault_stdout_eintr, fault_environment,
    fault_clock_jump, fault_cancel_abandon, fault_cancel_forget, fault_cancel_partial,
    fault_torn_input, fault_flip_input, fault_dup_input, fault_reorder, fault_duplicate,
    fault_reentrant_call, fault_lying_size_hint, fault_rejected_arg, fault_yield_in_callback,
    fault_slow_task, fault_address_reuse, fault_hash_reseed, fault_truncated_iter,
    // schedule
    sw_preempt, sw_hot, sw_finish, sw_block,
    // probes
    probe_op, probe_sut_panic, probe_log_record, probe_alloc, probe_big, probe_word_edge,
    probe_cycle, probe_acyclic, probe_selfloop, probe_multiedge, probe_retry_after_fault, probe_redone,
    probe_lexer_error, probe_resume_after_error, probe_unreachable, probe_reachable, probe_merge,
    probe_chain, probe_drain_mid, probe_zst, probe_padded, probe_copy_elem, probe_shared_read,
    probe_saturated, probe_pending, probe_empty, probe_many_keys, probe_nested_iter, probe_deep,
    probe_other_property, probe_route_direct, probe_route_bent, probe_route_through_home,
    probe_obstacles, probe_crowd, probe_visible_pair, probe_hidden_pair, probe_outside, probe_spline_pieces,
    probe_spline_bent, probe_spline_forced, probe_moved,
}
pub const NCTR: usize = Ctr::_COUNT as usize;

pub fn count(c: Ctr) {
    shm::report().ctr[c as usize] += 1;
}
pub fn counted(c: Ctr) -> u64 {
    shm::report().ctr[c as usize]
}
