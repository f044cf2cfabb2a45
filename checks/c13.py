"""C13: the section cache identifies, returns and limits sections."""
from imggen import *


def run(c):
    rng = c.rng
    cases = []
    for _ in range(c.n(4000, 60000)):
        w = dict(CACHE)
        if rng.random() < .15:
            w["grow"] = w["unlink"] = .4
        cases.append(history(rng, rng.choice([[1], [1, 2]]),
                             rng.choice([[1], [1], [1, 2]]),
                             rng.choice([12, 25, 40, 70]),
                             {"w": w, "fail": rng.choice([0, 0, 1, 5])}))
    check_images(c, cases)


if __name__ == "__main__":
    main(run, "C13", "exploration")
