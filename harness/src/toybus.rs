//! The toy VM's bus interaction handler (implements powdr's traits over F_p).
use crate::sys::{Toy, BITW, EXEC, MEM, PC, RANGE, TUPLE};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::memory_optimizer::{
    MemoryBusInteraction, MemoryBusInteractionConversionError, MemoryOp,
};
use powdr_autoprecompiles::range_constraint_optimizer::{
    MakeRangeConstraintsError, RangeConstraintHandler, RangeConstraints,
};
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{FieldElement, LargeInt};
use std::fmt::Display;
use std::hash::Hash;

#[derive(Clone)]
pub struct ToyHandler(pub Toy);

impl ToyHandler {
    fn rows(&self, id: u64) -> Vec<Vec<u64>> {
        let t = &self.0;
        match id {
            RANGE => (0..=t.max_bits)
                .flat_map(|b| (0..1u64 << b).map(move |x| vec![x, b]))
                .collect(),
            TUPLE => (0..t.tuple.0)
                .flat_map(|x| (0..t.tuple.1).map(move |y| vec![x, y]))
                .collect(),
            BITW => {
                let m = 1u64 << t.w;
                (0..m)
                    .flat_map(|x| {
                        (0..m).flat_map(move |y| [vec![x, y, 0, 0], vec![x, y, x ^ y, 1]])
                    })
                    .collect()
            }
            _ => vec![],
        }
    }
}

impl<T: FieldElement> BusInteractionHandler<T> for ToyHandler {
    fn handle_bus_interaction(
        &self,
        b: BusInteraction<RangeConstraint<T>>,
    ) -> BusInteraction<RangeConstraint<T>> {
        let Some(id) = b.bus_id.try_to_single_value() else {
            return b;
        };
        let id = id.to_integer().try_into_u64().unwrap();
        if b.multiplicity.allows_value(T::from(0u64)) || !matches!(id, RANGE | TUPLE | BITW) {
            return b;
        }
        let rows: Vec<Vec<u64>> = self
            .rows(id)
            .into_iter()
            .filter(|r| r.iter().zip(&b.payload).all(|(x, rc)| rc.allows_value(T::from(*x))))
            .collect();
        let payload = if rows.is_empty() {
            // Contradiction: report the plain column domains (the checked variant detects
            // it if a single column is disjoint).
            let all = self.rows(id);
            (0..b.payload.len()).map(|i| hull(&all, i)).collect()
        } else {
            (0..b.payload.len()).map(|i| hull(&rows, i)).collect()
        };
        BusInteraction { payload, ..b }
    }
}
fn hull<T: FieldElement>(rows: &[Vec<u64>], i: usize) -> RangeConstraint<T> {
    let vals: Vec<u64> = rows.iter().map(|r| r[i]).collect();
    let (lo, hi) = (*vals.iter().min().unwrap(), *vals.iter().max().unwrap());
    let mask = vals.iter().fold(0, |a, x| a | x);
    let r = RangeConstraint::from_range(T::from(lo), T::from(hi));
    if mask.count_ones() == 64 - mask.leading_zeros() && lo == 0 && hi == mask {
        RangeConstraint::from_mask(mask)
    } else {
        r.conjunction(&RangeConstraint::from_mask(mask))
    }
}

impl<T: FieldElement> IsBusStateful<T> for ToyHandler {
    fn is_stateful(&self, id: T) -> bool {
        self.0.stateful(id.to_integer().try_into_u64().unwrap())
    }
}

fn num<T: FieldElement, V: Ord + Clone + Eq>(e: &GroupedExpression<T, V>) -> Option<u64> {
    Some(e.try_to_number()?.to_integer().try_into_u64().unwrap())
}

impl<T: FieldElement> RangeConstraintHandler<T> for ToyHandler {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        b: &BusInteraction<GroupedExpression<T, V>>,
    ) -> Option<RangeConstraints<T, V>> {
        let p = &b.payload;
        match num(&b.bus_id).unwrap() {
            RANGE => {
                let bits = num(&p[1])?;
                if bits > self.0.max_bits {
                    return None;
                }
                Some(vec![(p[0].clone(), RangeConstraint::from_mask((1u64 << bits) - 1))])
            }
            TUPLE => Some(vec![
                (
                    p[0].clone(),
                    RangeConstraint::from_range(T::from(0u64), T::from(self.0.tuple.0 - 1)),
                ),
                (
                    p[1].clone(),
                    RangeConstraint::from_range(T::from(0u64), T::from(self.0.tuple.1 - 1)),
                ),
            ]),
            BITW => {
                if num(&p[3])? == 0 && num(&p[2])? == 0 {
                    let rc = RangeConstraint::from_mask((1u64 << self.0.w) - 1);
                    Some(vec![(p[0].clone(), rc), (p[1].clone(), rc)])
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        rcs: RangeConstraints<T, V>,
    ) -> Result<Vec<BusInteraction<GroupedExpression<T, V>>>, MakeRangeConstraintsError> {
        rcs.into_iter()
            .map(|(e, rc)| {
                for bits in 0..=self.0.max_bits {
                    if rc == RangeConstraint::from_mask((1u64 << bits) - 1) {
                        return Ok(BusInteraction {
                            bus_id: GroupedExpression::from_number(T::from(RANGE)),
                            multiplicity: GroupedExpression::from_number(T::from(1u64)),
                            payload: vec![e, GroupedExpression::from_number(T::from(bits))],
                        });
                    }
                }
                for (i, hi) in [self.0.tuple.0, self.0.tuple.1].into_iter().enumerate() {
                    if rc == RangeConstraint::from_range(T::from(0u64), T::from(hi - 1)) {
                        let z = GroupedExpression::from_number(T::from(0u64));
                        return Ok(BusInteraction {
                            bus_id: GroupedExpression::from_number(T::from(TUPLE)),
                            multiplicity: GroupedExpression::from_number(T::from(1u64)),
                            payload: if i == 0 { vec![e, z] } else { vec![z, e] },
                        });
                    }
                }
                Err(MakeRangeConstraintsError(format!("{rc}")))
            })
            .collect()
    }
}

pub fn bus_map() -> BusMap<String> {
    BusMap::from_id_type_pairs([
        (EXEC, BusType::ExecutionBridge),
        (MEM, BusType::Memory),
        (PC, BusType::PcLookup),
        (RANGE, BusType::Other("range".to_string())),
        (TUPLE, BusType::Other("tuple".to_string())),
        (BITW, BusType::Other("bitwise".to_string())),
    ])
}
pub fn bus_map_no_exec() -> BusMap<String> {
    BusMap::from_id_type_pairs([
        (MEM, BusType::Memory),
        (PC, BusType::PcLookup),
        (RANGE, BusType::Other("range".to_string())),
        (TUPLE, BusType::Other("tuple".to_string())),
        (BITW, BusType::Other("bitwise".to_string())),
    ])
}

/// Memory payload: [address space, address, data, timestamp]
pub struct ToyMem<T, V> {
    op: MemoryOp,
    addr: Vec<GroupedExpression<T, V>>,
    data: Vec<GroupedExpression<T, V>>,
    ts: Vec<GroupedExpression<T, V>>,
}
impl<T: FieldElement, V: Ord + Clone + Eq> MemoryBusInteraction<T, V> for ToyMem<T, V> {
    type Address = Vec<GroupedExpression<T, V>>;
    fn try_from_bus_interaction(
        b: &BusInteraction<GroupedExpression<T, V>>,
        memory_bus_id: u64,
    ) -> Result<Option<Self>, MemoryBusInteractionConversionError> {
        match b.bus_id.try_to_number() {
            None => return Err(MemoryBusInteractionConversionError),
            Some(id) if id == T::from(memory_bus_id) => {}
            Some(_) => return Ok(None),
        }
        let op = match b.multiplicity.try_to_number() {
            Some(n) if n == T::from(1u64) => MemoryOp::SetNew,
            Some(n) if n == -T::from(1u64) => MemoryOp::GetPrevious,
            _ => return Err(MemoryBusInteractionConversionError),
        };
        let n = b.payload.len();
        Ok(Some(ToyMem {
            op,
            addr: b.payload[..2].to_vec(),
            data: b.payload[2..n - 1].to_vec(),
            ts: vec![b.payload[n - 1].clone()],
        }))
    }
    fn addr(&self) -> Self::Address {
        self.addr.clone()
    }
    fn data(&self) -> &[GroupedExpression<T, V>] {
        &self.data
    }
    fn timestamp_limbs(&self) -> &[GroupedExpression<T, V>] {
        &self.ts
    }
    fn op(&self) -> MemoryOp {
        self.op
    }
}
