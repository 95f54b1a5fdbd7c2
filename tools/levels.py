B = " End-to-end behaviour is a labelled bounded stand-in: generated headers and generated contract arguments run through the real code, judged by an oracle written from the statement."
LEVEL = {"C01": "proof", "C02": "exploration", "C03": "exploration", "C04": "exploration", "C05": "exploration", "C06": "exploration", "C07": "exploration", "C08": "exploration", "C09": "exploration", "C10": "exploration", "C11": "exploration", "C13": "exploration", "C14": "exploration", "C15": "exploration", "C17": "proof", "C12": "exploration", "C16": "exploration", "C18": "exploration"}
NOTE = {p: "Contracts on the functions the property rests on are proved by pyvc on every run (see evidence)." + B for p in LEVEL}
NOT_APPLICABLE = []
