#!/usr/bin/env python3
import scenario_common as sc
sc.vp.main("S01", lambda c: sc.run(c, "S01"))
