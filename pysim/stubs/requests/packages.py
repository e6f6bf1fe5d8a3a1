import urllib3
