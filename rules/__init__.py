"""property id -> module"""
TABLE = {"C01": "evalr", "C02": "evalr", "C03": "evalr", "C04": "evalr",
         "C05": "evalr", "C06": "driver", "C07": "driver",
         "C08": "grammar", "C09": "exprs", "C11": "grammar",
         "C10": "trees", "C12": "trees", "C13": "core", "C14": "core",
         "C15": "core", "C16": "core", "C17": "applied",
         "C18": "applied", "C19": "lexing",
         "C20": "lint", "C21": "output", "C22": "files",
         "C23": "verify",
         "C24": "order"}
