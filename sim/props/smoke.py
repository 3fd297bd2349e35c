from ..world import Violation
import asyncio

def setup(sim, plan):
    async def main(ctx):
        xo = ctx.xo
        pool = await xo.create_actor_pool("10.0.0.1:7000", n_process=plan.get("n",2))
        ctx.rec("pool_up", addr=pool.external_address)
        sim.event("up").set(pool.external_address)
        await sim.event("stop").wait()
        await pool.stop()
        ctx.rec("stopped")
    async def drv(ctx):
        addr = await sim.event("up").wait()
        xo = ctx.xo
        refs = []
        for i in range(4):
            st, r = await ctx.call("create", xo.create_actor(ctx.A.Work, f"a{i}", address=addr, uid=f"a{i}", allocate_strategy=xo.allocate_strategy.ProcessIndex(1 + i % 2)))
            refs.append(r)
        async def one(j):
            return await ctx.call("do", refs[j % 4].do(j, j % 5), rid=j)
        await asyncio.gather(*[one(j) for j in range(40)])
        await ctx.call("err", refs[0].do(99, 0, "boom"), rid=99)
        sim.event("stop").set()
    sim.proc(0, "main0", main)
    sim.proc(plan.get("dh",1), "drv", drv)

def check(sim, plan, hist, reason):
    return []
RUNS={"quick":200,"thorough":2000}
def gen(rng,tier,i):
    return {"n":2,"knobs":{"max_time":60}}
