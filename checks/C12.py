import fermigen as g

def check(c):
    exe = c.build("states", g.STATE_SRCS)
    c.model("MCPartition", c.pick("MCPartition", "MCPartition_big"))
    r = c.rng
    hs = [g.partition_history(r) for i in range(c.pick(300, 4000))]
    c.validate("TracePartition", "TracePartition", c.run_driver([exe], hs, "partition"), "partitions")
