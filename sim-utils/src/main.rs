#![allow(clippy::type_complexity, clippy::too_many_arguments)]
mod daemon;
mod inspect;
mod ipfs;
mod pubsub;
mod sqlite;
mod store;
mod tags;
mod vfs;
mod wire;
#[path = "../../old/tags/mod.rs"]
mod old_tags;

use serde::{Deserialize, Serialize};
use simcore::engine::{main_with, About, Scenario};
use simcore::outcome::RunResult;

#[derive(Clone, Serialize, Deserialize)]
enum Plan {
    Tags(tags::TagPlan),
    Ipfs(ipfs::IpfsPlan),
    Sql(sqlite::SqlPlan),
    Pub(pubsub::PubPlan),
    Wire(wire::WirePlan),
    Inspect(inspect::InspectPlan),
}

struct Utils;

impl Scenario for Utils {
    type Plan = Plan;
    fn props(&self) -> Vec<&'static str> {
        vec!["C22", "C23", "C24", "C25", "C27", "C28"]
    }
    fn generate(&self, prop: &str, seed: u64) -> Plan {
        match prop {
            "C22" => Plan::Sql(sqlite::generate(seed)),
            "C25" => Plan::Wire(wire::generate(seed)),
            "C28" => Plan::Inspect(inspect::generate(seed)),
            "C27" => Plan::Pub(pubsub::generate(seed)),
            "C23" => Plan::Ipfs(ipfs::generate(seed)),
            _ => Plan::Tags(tags::generate(seed)),
        }
    }
    fn run(&self, _prop: &str, plan: &Plan, trace: bool) -> RunResult {
        match plan {
            Plan::Tags(p) => tags::run(p, trace),
            Plan::Ipfs(p) => ipfs::run(p, trace),
            Plan::Sql(p) => sqlite::run(p, trace),
            Plan::Pub(p) => pubsub::run(p, trace),
            Plan::Wire(p) => wire::run(p, trace),
            Plan::Inspect(p) => inspect::run(p, trace),
        }
    }
    fn shrink(&self, plan: &Plan, _res: &RunResult) -> Vec<Plan> {
        match plan {
            Plan::Tags(p) => tags::shrink(p).into_iter().map(Plan::Tags).collect(),
            Plan::Ipfs(p) => ipfs::shrink(p).into_iter().map(Plan::Ipfs).collect(),
            Plan::Sql(p) => sqlite::shrink(p).into_iter().map(Plan::Sql).collect(),
            Plan::Pub(p) => pubsub::shrink(p).into_iter().map(Plan::Pub).collect(),
            Plan::Wire(p) => wire::shrink(p).into_iter().map(Plan::Wire).collect(),
            Plan::Inspect(p) => inspect::shrink(p).into_iter().map(Plan::Inspect).collect(),
        }
    }
    fn about(&self, prop: &str) -> About {
        match prop {
            "C22" => sqlite::about(),
            "C23" => ipfs::about(),
            "C25" => wire::about(),
            "C27" => pubsub::about(),
            "C28" => inspect::about(),
            _ => tags::about(),
        }
    }
}

fn main() {
    main_with(Utils)
}
