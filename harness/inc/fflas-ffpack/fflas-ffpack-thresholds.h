/* no tuned thresholds: defaults apply */
