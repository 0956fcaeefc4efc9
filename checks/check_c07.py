from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C07"
    kinds = ("head", "sort", "tail")
