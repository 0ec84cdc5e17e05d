#!/usr/bin/env python3
import scenario_common as sc
sc.vp.main("S03", lambda c: sc.run(c, "S03"))
