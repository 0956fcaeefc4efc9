from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C12"
    kinds = ("join", "multisearch", "lookup")
