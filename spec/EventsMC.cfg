SPECIFICATION Spec
CONSTANTS Slack = 0
          NOn = 3
          MaxHits = 1
          Freqs = {0, 3000, 6000}
          Drifts = {0, 1, 5}
INVARIANTS Several Unseen Once Reported
CHECK_DEADLOCK FALSE
