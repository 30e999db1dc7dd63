"""What each check explores: number of drawn calls per tier and models."""
MESSAGES = ["MC_Body", "MC_Patch", "MC_Resp", "MC_List", "MC_Query", "MC_BulkReq", "MC_BulkResp"]
PARTS = ["MC_Values", "MC_Res", "MC_Decl", "MC_Filter", "MC_Match", "MC_Sort", "MC_Path"]


def wrapped(how, take, names):
    return [{"name": n, "wrap": how, "take": take, "most": 12 * take} for n in names]


PLAN = {
    "C01": {"quick": 2500, "thorough": 20000, "models": [{"name": "MC_Refs"}]},
    "C02": {"quick": 3000, "thorough": 60000, "models": [{"name": "MC_Cont"}]},
    "C03": {"quick": 3000, "thorough": 60000, "models": [{"name": "MC_Issues", "take": 4000}]},
    "C04": {"quick": 6000, "thorough": 100000, "models": [{"name": "MC_Values"}]},
    "C05": {"quick": 20000, "thorough": 300000, "models": wrapped("nothing", 6000, MESSAGES + PARTS)},
    "C06": {"quick": 2000, "thorough": 40000, "models": [{"name": "MC_Res", "take": 3000}]},
    "C07": {"quick": 2000, "thorough": 50000, "models": [{"name": "MC_Decl", "take": 4000}]},
    "C08": {"quick": 2500, "thorough": 60000, "models": [{"name": "MC_Pres", "take": 5000}]},
    "C09": {"quick": 4000, "thorough": 50000, "models": [{"name": "MC_Filter", "take": 25000}]},
    "C10": {"quick": 4000, "thorough": 80000, "models": [{"name": "MC_Match"}]},
    "C11": {"quick": 3000, "thorough": 50000, "models": [{"name": "MC_Sort", "take": 6000}]},
    "C12": {"quick": 2500, "thorough": 50000, "models": [{"name": "MC_Body"}]},
    "C13": {"quick": 4000, "thorough": 60000, "models": [{"name": "MC_Path"}]},
    "C14": {"quick": 4000, "thorough": 60000, "models": [{"name": "MC_Patch"}]},
    "C15": {"quick": 3000, "thorough": 50000, "models": [{"name": "MC_Resp", "take": 8000}]},
    "C16": {"quick": 2500, "thorough": 40000, "models": [{"name": "MC_List", "take": 8000}]},
    "C17": {"quick": 4000, "thorough": 60000, "models": [{"name": "MC_Query"}]},
    "C18": {"quick": 2500, "thorough": 40000, "models": [{"name": "MC_BulkReq"}]},
    "C19": {"quick": 2500, "thorough": 40000, "models": [{"name": "MC_BulkResp", "take": 10000}]},
    "C20": {"quick": 1000, "thorough": 15000, "models": wrapped("seq", 1200, MESSAGES + PARTS)},
    "C21": {"quick": 3500, "thorough": 50000, "models": wrapped("rel", 2500, MESSAGES)},
    "C23": {"quick": 800, "thorough": 12000, "models": [{"name": "MC_Compose", "take": 1000}]},
    "C24": {"quick": 2500, "thorough": 30000, "models": [{"name": "MC_Make", "take": 9000}]},
    "C25": {"quick": 3000, "thorough": 40000, "models": wrapped("details", 2500, MESSAGES + ["MC_Values", "MC_Res", "MC_Filter", "MC_Path"])},
    "C26": {"quick": 2500, "thorough": 40000, "models": [{"name": "MC_Serve", "take": 3000}] + wrapped("serve", 1500, ["MC_Resp", "MC_List", "MC_BulkResp"])},
    "C22": {"quick": 100, "thorough": 1000},
}
