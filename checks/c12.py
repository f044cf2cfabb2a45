"""C12: a memory image reads like the most recent mapping everywhere."""
from imggen import *


def run(c):
    rng = c.rng
    check_model(c, c.n(2, 3), 3, "1, 3")
    cases = []
    for _ in range(c.n(3000, 40000)):
        w = dict(IMG)
        if rng.random() < .15:
            w["grow"] = w["unlink"] = .4
        cases.append(history(rng, rng.choice([[1], [1], [1, 2], [1, 2, 3]]),
                             rng.choice([[1], [1, 2]]),
                             rng.choice([12, 25, 40, 70]),
                             {"w": w, "fail": rng.choice([0, 0, 1, 5])}))
    # sections that end with the address space
    for _ in range(20):
        a = rng.randrange(40)
        cases.append("ffffffffffffffc0 64 add,1,0,%d,%d,-1,-1,%d,0 "
                     "read,1,8,-1,-1,%d" %
                     (a, 64 - a, a, rng.randrange(a, 64)))
    check_images(c, cases)


if __name__ == "__main__":
    main(run, "C12", "exploration")
