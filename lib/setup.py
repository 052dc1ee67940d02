"""Build the engine, the module of /repo's current code and the replayer."""
import build
with build.Lock():
    build.engine()
    build.harness()
    build.replayer()
