def check(c):
    exe = c.build("signals", ["signals.cpp", "repo:utility/callbacks.cpp", "repo:utility/signal_handler.cpp"])
    hs = [{"ops": [dict(o, via=v) for o in ops]} for ops in c.tour("MCSignals", "MCSignals", maxlen=50, limit=c.pick(400, None)) for v in (0, 1)]
    hs += [{"ops": [dict(o, via=c.rng.random() < 0.5) for o in ops]} for ops in c.behaviours("MCSignals", "MCSignals_sim", c.pick(300, 3000), 30)]
    c.validate("TraceSignals", "TraceSignals", c.run_driver([exe], hs, "signals"), "signal capture and stop callbacks")
    c.assumptions += ["signals are delivered synchronously by the process to itself, and only while they are captured", "the standard clocks are replaced by a virtual one"]
