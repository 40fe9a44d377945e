//! A toy VM over the tiny field: programs, instructions, instruction circuits and execution states, so that the
//! real block detection, precompile building, selection and execution-time code runs on enumerable inputs.
use crate::fp::Fp;
use crate::toybus::{ToyHandler, ToyMem};
use powdr_autoprecompiles::adapter::{Adapter, AdapterApc, AdapterApcWithStats};
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::pgo::ApcCandidate;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{DegreeBound, InstructionHandler};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Display;
use std::hash::Hash;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

static STEP: AtomicU32 = AtomicU32::new(4);
pub fn set_pc_step(s: u32) {
    STEP.store(s, Relaxed);
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ToyInstr {
    pub op: usize,
    pub args: Vec<u64>,
    pub branching: bool,
    pub allowed: bool,
}
impl Display for ToyInstr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "op{} {:?}", self.op, self.args)
    }
}
impl PcStep for ToyInstr {
    fn pc_step() -> u32 {
        STEP.load(Relaxed)
    }
}
impl Instruction<Fp> for ToyInstr {
    fn pc_lookup_row(&self, pc: u64) -> Vec<Fp> {
        std::iter::once(pc)
            .chain(std::iter::once(self.op as u64))
            .chain(self.args.iter().copied())
            .map(Fp::new)
            .collect()
    }
}

pub struct ToyProgram {
    pub base: u64,
    pub instrs: Vec<ToyInstr>,
}
impl Program<ToyInstr> for ToyProgram {
    fn base_pc(&self) -> u64 {
        self.base
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = ToyInstr> + '_> {
        Box::new(self.instrs.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.instrs.len() as u32
    }
}

/// Instruction circuits by opcode; `stats` gives made-up costs for selection experiments.
#[derive(Default)]
pub struct ToyAirs {
    pub machines: Vec<SymbolicMachine<Fp>>,
    /// the circuit used by an opcode (several opcodes may share one)
    pub air_of_op: Vec<usize>,
    pub stats: HashMap<Vec<u64>, ToyStats>,
    pub bound: Option<DegreeBound>,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct ToyStats {
    pub before: usize,
    pub after: usize,
    pub value: usize,
}
impl InstructionHandler for ToyAirs {
    type Field = Fp;
    type Instruction = ToyInstr;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        self.bound.unwrap()
    }
    fn get_instruction_air_and_id(&self, i: &ToyInstr) -> (usize, &SymbolicMachine<Fp>) {
        let a = self.air_of_op[i.op];
        (a, &self.machines[a])
    }
    fn get_instruction_air_stats(&self, i: &ToyInstr) -> AirStats {
        AirStats::new(self.get_instruction_air_and_id(i).1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ToyState {
    pub pc: u64,
    pub regs: [u64; 2],
    pub clk: usize,
}
impl ExecutionState for ToyState {
    type RegisterAddress = u8;
    type Value = u64;
    fn pc(&self) -> u64 {
        self.pc
    }
    fn value_limb(v: u64, i: usize) -> u64 {
        (v >> (2 * i)) & 3
    }
    fn reg(&self, a: &u8) -> u64 {
        self.regs[*a as usize]
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}

pub struct ToyAdapter;
impl Adapter for ToyAdapter {
    type Field = Fp;
    type PowdrField = Fp;
    type InstructionHandler = ToyAirs;
    type BusInteractionHandler = ToyHandler;
    type Program = ToyProgram;
    type Instruction = ToyInstr;
    type MemoryBusInteraction<V: Ord + Clone + Eq + Display + Hash> = ToyMem<Fp, V>;
    type CustomBusTypes = String;
    type ApcStats = ToyStats;
    type AirId = usize;
    type ExecutionState = ToyState;
    fn into_field(e: Fp) -> Fp {
        e
    }
    fn from_field(e: Fp) -> Fp {
        e
    }
    fn apc_stats(apc: Arc<AdapterApc<Self>>, h: &ToyAirs) -> ToyStats {
        h.stats.get(&apc.start_pcs()).copied().unwrap_or_default()
    }
    fn is_branching(i: &ToyInstr) -> bool {
        i.branching
    }
    fn is_allowed(i: &ToyInstr) -> bool {
        i.allowed
    }
}

pub struct ToyCandidate(pub AdapterApcWithStats<ToyAdapter>);
impl ApcCandidate<ToyAdapter> for ToyCandidate {
    fn create(a: AdapterApcWithStats<ToyAdapter>) -> Self {
        ToyCandidate(a)
    }
    fn inner(&self) -> &AdapterApcWithStats<ToyAdapter> {
        &self.0
    }
    fn into_inner(self) -> AdapterApcWithStats<ToyAdapter> {
        self.0
    }
    fn cost_before_opt(&self) -> usize {
        self.0.stats().before
    }
    fn cost_after_opt(&self) -> usize {
        self.0.stats().after
    }
    fn value_per_use(&self) -> usize {
        self.0.stats().value
    }
}
