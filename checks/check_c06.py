from plancheck import PlanCheck


class CHECK(PlanCheck):
    id = "C06"
    kinds = ("eval",)
    depth = 3
