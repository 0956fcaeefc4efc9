from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C10"
    kinds = ("stats", "stats", "tstats", "top", "datamodel")
