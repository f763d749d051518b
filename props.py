# property -> harness group and seconds of search per tier
for _id in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C19 C25 C26".split(): P(_id, "session", quick=15, thorough=300)
PROPS["C05"]["level"] = "fault_enumeration"
for _id in "C13 C20 C21 C22".split(): P(_id, "data", quick=12, thorough=180)
for _id in "C14 C15 C16 C17 C18".split(): P(_id, "region", quick=15, thorough=240)
for _id in ("C23", "C24"): P(_id, "cpp", quick=15, thorough=240)
P("C27", "proc", quick=60, thorough=600, workers=48, schedules=True)
P("C28", "proc", quick=40, thorough=400, workers=24)
P("C29", "proc", quick=10, thorough=120)
P("C31", "cli", quick=40, thorough=400, workers=24)
P("C30", "python", quick=40, thorough=600, workers=12)
P("C32", "opencv", quick=12, thorough=120)
P("C33", "mexserver", quick=12, thorough=120)
P("C34", "mexclient", quick=20, thorough=240, workers=32)
P("C35", "tools", quick=20, thorough=240, workers=32)
P("C36", "tools", quick=20, thorough=240, workers=32)
P("C37", "locale", quick=12, thorough=180)
P("C38", "threads", quick=15, thorough=240, schedules=True)
P("C39", "proc", quick=20, thorough=240, workers=32, schedules=True)
P("C40", "proc", quick=30, thorough=300, workers=16, schedules=True)
