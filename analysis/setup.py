"""setup_cmd: builds the MIR driver and extracts the MIR of the current tree once (checks reuse it while the tree is unchanged)."""
import run
print('driver', run.build_driver())
print('dump', run.dump())
