import pandas as pd
from symx.case import Case
from mizarlabs.model.pipeline import StrategyTrader, StrategySignalPipeline

ASSUMPTIONS = ["answers: the four allowed ones and a list of others of several types"]
ALLOWED = ["all", "long", "short", None]
OTHERS = ["ALL", "", "none", "both", "shorts", 0, 1, -1, False, True, 2.5, "long ", ("all",), "None"]


class Closer:
    def __init__(self, answers):
        self.answers, self.seen = list(answers), []

    def close_positions(self, X_dict):
        self.seen.append(X_dict)
        return self.answers[len(self.seen) - 1]


def closing(ctx, calls, via_trader):
    ans = [ctx.choice(f"answer{c}", ALLOWED + OTHERS) for c in range(calls)]
    m = Closer(ans)
    X = {"bars": ctx.frame({"close": ctx.prices("p", 2)}, ctx.date_range(2))}
    p = StrategySignalPipeline({"bars": None}, "bars", {}, closing_positions_model=m)
    f = StrategyTrader(p, 3, 3, 1.0, 1.0).determine_positions_to_close if via_trader else p.determine_positions_to_close
    for c, a in enumerate(ans):
        if any(a is x or (isinstance(a, str) and a == x) for x in ALLOWED):
            got = f(X)
            ctx.check(got == a and (got is None) == (a is None), f"answer {a!r} gave {got!r}")
        else:
            ctx.check(ctx.raises(ValueError, lambda: f(X)) is not None, f"answer {a!r} is rejected")
        ctx.check(len(m.seen) == c + 1 and m.seen[c] is X or list(m.seen[c]) == ["bars"], "the model is asked with the given data")


def nothing(ctx, via_trader):
    X = {"bars": ctx.frame({"close": ctx.prices("p", 2)}, ctx.date_range(2))}
    p = StrategySignalPipeline({"bars": None}, "bars", {})
    f = StrategyTrader(p, 3, 3, 1.0, 1.0).determine_positions_to_close if via_trader else p.determine_positions_to_close
    ctx.check(f(X) is None, "nothing is closed without a closing model")


def set_later(ctx):
    """a model configured after construction decides, and removing it closes nothing"""
    X = {"bars": ctx.frame({"close": ctx.prices("p", 2)}, ctx.date_range(2))}
    a = ctx.choice("answer", ALLOWED)
    p = StrategySignalPipeline({"bars": None}, "bars", {})
    p.closing_positions_model = Closer([a])
    ctx.check(p.determine_positions_to_close(X) == a, "the configured model decides")
    p.closing_positions_model = None
    ctx.check(p.determine_positions_to_close(X) is None, "nothing is closed without a closing model")


def cases(tier):
    out = []
    for v in (False, True):
        w = "trader" if v else "pipeline"
        for c in ((1, 2, 3) if tier == "thorough" and not v else (1, 2)):
            out.append(Case(f"{w} calls={c}", closing, f"{c} calls, any of {len(ALLOWED + OTHERS)} answers each", dict(calls=c, via_trader=v)))
        out.append(Case(f"{w} no model", nothing, "no closing model", dict(via_trader=v)))
    out.append(Case("configured later", set_later, "any allowed answer", {}))
    return out
