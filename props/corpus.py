"""Statements whose only purpose is to fill ANTLR's (per process) prediction caches before the workers are forked."""
EXPRS = """a|a.b|"a"|"a"."b"|1|-1|1.5|1E20|-1.5|.5|'s'|U&'s'|X'00'|TRUE|NULL|a+b*c|-a|+a|(a+b)*c|a-(b-c)|a%b|a/b|a||b|a=b|a<>b|a<b|a<=b|a>b|a>=b|a IS NULL|a IS NOT NULL|a IS DISTINCT FROM b|a IS NOT DISTINCT FROM b
a BETWEEN b AND c|a NOT BETWEEN b AND c|a LIKE b|a LIKE b ESCAPE c|a NOT LIKE b|a IN (b,c)|a NOT IN (b)|a IN (SELECT "b" FROM "t")|NOT a|a AND b|a OR b|NOT (a=b)|(a=b)=c|(a,b)|ROW(a)|ROW(a,b)|ARRAY[a,b]|a[b]|a[1]|(a+b)[c]|(a).b|CAST(a AS BIGINT)|TRY_CAST(a AS DECIMAL(5,2))|CAST(a AS ARRAY(DOUBLE))|CAST(a AS TIMESTAMP(3) WITH TIME ZONE)|CAST(a AS ROW(BIGINT,DOUBLE))
CASE WHEN a THEN b ELSE c END|CASE a WHEN b THEN c WHEN d THEN e END|x -> a|(x,y) -> a|CONCAT(a,b)|COALESCE(a,b)|IF(a,b,c)|LOWER(a)|NORMALIZE(a)|NORMALIZE(a,NFC)|SUM(a ORDER BY b ASC NULLS LAST) FILTER (WHERE c) OVER (PARTITION BY d ORDER BY e DESC NULLS FIRST RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)|LISTAGG(a,'-') WITHIN GROUP (ORDER BY b)|LISTAGG(a ON OVERFLOW TRUNCATE '.' WITH COUNT) WITHIN GROUP (ORDER BY b)|COUNT(*)|COUNT(t.*)|(SELECT "a")|(SELECT "a")+b|DATE '2001-01-01'|TIMESTAMP '2001-01-01'|INTERVAL '1' YEAR|INTERVAL '1' DAY TO SECOND|INTERVAL -'1' DAY|CURRENT_DATE|LOCALTIME(3)|CURRENT_TIMESTAMP|CURRENT_USER|NOW()|MAX(a) IGNORE NULLS OVER (w ORDER BY a)|COUNT(a) OVER w|a+b-c|a AND b OR c|NOT a IS NULL|"A"."b"+'it''s'|foo(a)|EXISTS (SELECT 1)|a = ANY (SELECT 1)|a AT TIME ZONE 'x'|EXTRACT(YEAR FROM a)|TRIM(a)|SUBSTRING(a FROM 1)|?"""
QUERIES = """SELECT "a"|SELECT DISTINCT "a","b" "c" FROM "t"|SELECT ALL * FROM "a"."b"."c"|SELECT "t".* FROM "t" WHERE "a"=1 GROUP BY "a","b" HAVING "c" ORDER BY "d" DESC NULLS FIRST,"e" ASC NULLS LAST OFFSET 1 LIMIT 2|SELECT 1 WINDOW "w" AS (PARTITION BY "a" ORDER BY "b" ROWS BETWEEN 1 PRECEDING AND UNBOUNDED FOLLOWING)|VALUES 1,2|VALUES (1,2),(3,4)|TABLE "t"|(SELECT 1) UNION DISTINCT (SELECT 2)|(SELECT 1) INTERSECT DISTINCT (SELECT 2)|(SELECT 1) EXCEPT DISTINCT (TABLE "t") ORDER BY 1 LIMIT 3|SELECT 1 UNION SELECT 2 INTERSECT SELECT 3|WITH "a" AS (SELECT 1),"b" ("x","y") AS (SELECT 2) SELECT * FROM "a"|SELECT 1 FETCH FIRST 3 ROWS ONLY|SELECT 1 FROM "a" CROSS JOIN "b"|SELECT 1 FROM "a" INNER JOIN "b" ON "x"="y" LEFT JOIN "c" USING ("z","w")|SELECT 1 FROM "a" NATURAL INNER JOIN "b"|SELECT 1 FROM "a" FULL OUTER JOIN ("b" RIGHT JOIN "c" ON "x") ON "y"|SELECT 1 FROM (SELECT 1) "x" ("y","z")|SELECT 1 FROM (SELECT 1) AS "x"|SELECT 1 FROM UNNEST(ARRAY[1],"a") WITH ORDINALITY "t"|SELECT 1 FROM "a" CROSS JOIN LATERAL (SELECT 1)|SELECT 1 FROM "a" TABLESAMPLE BERNOULLI (10)|SELECT 1 FROM "t" GROUP BY GROUPING SETS (("a","b"),"c",())|SELECT 1 FROM "t" GROUP BY CUBE ("a","b"),ROLLUP ("c"),("d","e"),"f"|SELECT 1 FROM "t" GROUP BY DISTINCT "a"|SELECT "a".* AS ("x","y") FROM "a"|SELECT 1 FROM ("a" "b")|SELECT 1 FROM ((SELECT 1))|SELECT 1 LIMIT ALL"""
TYPES = """BIGINT|DECIMAL(5,2)|VARCHAR(3)|CHAR(3)|TIMESTAMP(3) WITH TIME ZONE|TIME(3)|TIME WITH TIME ZONE|TIMESTAMP WITHOUT TIME ZONE|ARRAY(BIGINT)|MAP(BIGINT,DOUBLE)|ROW(BIGINT,ARRAY(DOUBLE))|INTERVAL YEAR TO MONTH|INTERVAL DAY TO SECOND|DOUBLE PRECISION|BIGINT ARRAY|ROW(a BIGINT)|QDIGEST(BIGINT)|ARRAY<BIGINT>|MAP<BIGINT,DOUBLE>"""


def warm_up():
    import contextlib
    import io

    from treeno.grammar.parse import AST

    def split(s):
        return [x for line in s.split("\n") for x in line.replace("||", "\0").split("|")]

    for texts, m in ((EXPRS, "expression"), (QUERIES, "query"), (TYPES, "type")):
        for t in split(texts):
            for u in (t, "SELECT " + t if m == "expression" else t):
                u = u.replace("\0", "||")
                with contextlib.redirect_stderr(io.StringIO()):
                    try:
                        getattr(AST(u), "query" if u.startswith("SELECT") and m == "expression" else m)()
                    except Exception:
                        pass
