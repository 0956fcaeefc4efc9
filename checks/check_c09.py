from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C09"
    kinds = ("rex", "rex", "spath", "regex_cmd")
