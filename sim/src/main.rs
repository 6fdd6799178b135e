use serde::{Deserialize, Serialize};
use simcore::engine::{main_with, About, Scenario};
use simcore::outcome::RunResult;
use simcore::{conc, live, plan, repl, world::World};

#[derive(Clone, Serialize, Deserialize)]
enum Plan {
    Hist(plan::HistPlan),
    Live(live::LivePlan),
    Conc(conc::ConcPlan),
    Repl(repl::ReplPlan),
}

struct Core;

impl Scenario for Core {
    type Plan = Plan;
    fn props(&self) -> Vec<&'static str> {
        vec![
            "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
            "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21",
        ]
    }
    fn generate(&self, prop: &str, seed: u64) -> Plan {
        match prop {
            "C08" | "C09" => Plan::Live(live::generate(prop, seed)),
            "C10" | "C17" | "C18" => Plan::Conc(conc::generate(prop, seed)),
            "C15" => Plan::Repl(repl::generate(prop, seed)),
            _ => Plan::Hist(plan::generate(prop, seed)),
        }
    }
    fn run(&self, prop: &str, plan: &Plan, trace: bool) -> RunResult {
        match plan {
            Plan::Hist(p) => World::run(prop, p, trace),
            Plan::Live(p) => live::run(prop, p, trace),
            Plan::Conc(p) => conc::run(prop, p, trace),
            Plan::Repl(p) => repl::run(prop, p, trace),
        }
    }
    fn shrink(&self, plan: &Plan, res: &RunResult) -> Vec<Plan> {
        match plan {
            Plan::Hist(p) => plan::shrink(p).into_iter().map(Plan::Hist).collect(),
            Plan::Live(p) => live::shrink(p).into_iter().map(Plan::Live).collect(),
            Plan::Conc(p) => conc::shrink(p, res).into_iter().map(Plan::Conc).collect(),
            Plan::Repl(p) => repl::shrink(p).into_iter().map(Plan::Repl).collect(),
        }
    }
    fn about(&self, prop: &str) -> About {
        simcore::about::about(prop)
    }
}

fn main() {
    main_with(Core)
}
