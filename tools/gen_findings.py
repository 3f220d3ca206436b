"""Writes known_findings.txt: the genuine defects found, all of them repaired."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("XGBoost splits on named", "C14"), ("LightGBM linear", "C14"), ("a hyper-parameter of", "C12"), ("the legend of graded", "C32"), ("members of a downloaded", "C33"),
        ("feature ids that are negative", "C03"), ("ids that do not fit in an integer", "C03"), ("Dataset.split, subset", "C04"), ("dumping a data set silently", "C02"), ("svmlight loader misaligned", "C01"), ("svmlight loader", "C03"), ("the SVMlight loader", "C03"), ("dumping a single-row", "C02"), ("dumping a Fortran", "C02"),
        ("Dataset.split", "C05"), ("get_query_offsets", "C04"), ("Dataset equality", "C07"), ("MSE used the query id", "C21"),
        ("RMSE of a query", "C21"), ("NDCG.eval_per_query", "C18"), ("MAP@k", "C19"), ("Kendalltau", "C21"), ("Pfound", "C20"),
        ("tree_wise_performance", "C24"), ("thresholds reported with cumulative", "C25"), ("query_class_performance", "C25"),
        ("query_wise_performance", "C25"), ("graded relevance and rank confusion", "C26"), ("document_graded_relevance", "C25"),
        ("rank_confusion_matrix", "C26"), ("feature importance", "C27"), ("plots of model", "C32"), ("bias_variance", "C30"), ("randomization test", "C29"),
        ("Scorer.get_predicted_leaves", "C15"), ("a failed scoring", "C16"), ("feature ids above 32767", "C08"), ("XGBoost splits", "C10"), ("CatBoost models", "C11"),
        ("exporting scikit-learn", "C12"), ("round the thresholds of scikit-learn", "C12"), ("loading a Jforests", "C11"), ("export_graphviz", "C31"), ("plot_", "C32"),
        ("init_plot_style", "C32"), ("draw each tree shape", "C32"), ("draw the levels", "C32"), ("plot the usage counts", "C32"),
        ("do not cut the bars", "C32"), ("a failed download", "C33"), ("download_if_missing", "C33"), ("the catalogue", "C33")]

if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
    out = ["# Genuine defects of hpclab/rankeval met by the checks. 'fixed:' entries were repaired",
           "# in /repo by the commit named and suppress nothing. A finding in force would be",
           "# 'KNOWN-FINDING: property=<id> key=<key> <what fails>'; there is none.", ""]
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        ids = [p for k, p in PROP if s.startswith(k)]
        assert ids, s
        out.append("fixed: property=%s %s %s" % (ids[0], h, s))
    open(os.path.join(ROOT, "known_findings.txt"), "w").write("\n".join(out) + "\n")
    print(len(out) - 4)
